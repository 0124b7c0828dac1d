"""Branch and delta filters apply the format's conversion, at absolute stream positions."""
from sa.terms import *
from sa import flow, evalt, arith
from sa.flow import INT
from sa.prov import *
from checks import hgram as H, htab

TECHNIQUE = "bit-level transfer functions over MIR path summaries, compared with the format's conversion tables"
RULE = """Each constructor of a filtering reader selects one conversion function. On every path of one round of that
function the bits of each output byte are followed back to the input bytes and to one 32-bit sum or difference: the
instruction's address field (shifted as the format says) minus the absolute position of the instruction (plus when
encoding), and they must sit exactly where the format (ARM, ARM-Thumb, PowerPC, SPARC, x86) puts them; the round converts exactly when the opcode
bits of the format are present (decided on value sets of the opcode bytes); it advances by the format's step, stops only when too
few bytes are left, and the position and the returned count grow by the bytes passed. For x86 the pending-opcode state
is followed through all of its values. The delta filter adds the byte `distance` places earlier out of a ring its
position walks through. The buffering reader hands out only converted bytes, in order, converts everything it read that is
not yet converted, and hands out an unconverted tail only at the end of the stream."""
NOTE = RULE + " BCJ2 is not covered. Rounds are compared one at a time; the induction over rounds is the loop invariant itself."

START = {}      # constructor -> what each of its results starts with, by field
ANY = frozenset(range(256))


def mask(m, v):
    return frozenset(x for x in range(256) if x & m == v)


def S(lo, n):
    return [("S", i) for i in range(lo, lo + n)]


def B(k, lo=0, n=8):
    return [("B", k, i) for i in range(lo, lo + n)]


def K(v, n=8):
    return [(v >> i) & 1 for i in range(n)]


# name -> width of one look, step, extra step when converted, offset of the position, opcode patterns,
#         the 32 bits of the address before the position is applied, the bits of each byte after it
SPEC = {
    "arm": dict(step=4, extra=0, off=8, pats=[{3: frozenset([0xEB])}],
                src=[0, 0] + B(0) + B(1) + B(2) + [0] * 6,
                out={0: S(2, 8), 1: S(10, 8), 2: S(18, 8), 3: K(0xEB)}),
    "arm_thumb": dict(step=2, extra=2, off=4, pats=[{3: mask(0xF8, 0xF8), 1: mask(0xF8, 0xF0)}],
                      src=[0] + B(2) + B(3, 0, 3) + B(0) + B(1, 0, 3) + [0] * 9,
                      out={2: S(1, 8), 3: S(9, 3) + K(0x1F, 5), 0: S(12, 8), 1: S(20, 3) + K(0x1E, 5)}),
    "ppc": dict(step=4, extra=0, off=0, pats=[{0: mask(0xFC, 0x48), 3: mask(3, 1)}],
                src=[0, 0] + B(3, 2, 6) + B(2) + B(1) + B(0, 0, 2) + [0] * 6,
                out={3: [1, 0] + S(2, 6), 2: S(8, 8), 1: S(16, 8), 0: S(24, 2) + K(0x12, 6)}),
    "sparc": dict(step=4, extra=0, off=0, pats=[{0: frozenset([0x40]), 1: mask(0xC0, 0)}, {0: frozenset([0x7F]), 1: mask(0xC0, 0xC0)}],
                  src=[0, 0] + B(3) + B(2) + B(1) + B(0, 0, 6),
                  out={3: S(2, 8), 2: S(10, 8), 1: S(18, 6) + [("S", 24)] * 2, 0: [("S", 24)] * 6 + [1, 0]}),
}
WIDTH = 4
MAKERS = {"new_arm": "arm", "new_arm_thumb": "arm_thumb", "new_ppc": "ppc", "new_sparc": "sparc", "new_x86": "x86"}


class Bits:
    """Bits of terms over the bytes at a cursor and one 32-bit sum."""

    def __init__(s, byte, total=None, known=None, env=None):
        s.byte = byte          # element term -> offset of the byte it is, or None
        s.total = total        # term -> True when it is the address sum of the format
        s.known = known or {}
        s.env = env or {}
        s.memo = {}

    def of(s, t):
        if t not in s.memo:
            s.memo[t] = None
            s.memo[t] = s._of(t)
            if s.memo[t] is None:
                w = width(t)
                s.memo[t] = tuple(("?", t, i) for i in range(w)) + ((("?", t, w - 1),) if signed(t) else (0,)) * (64 - w)
        return tuple(s.known.get(x, x) for x in s.memo[t])

    def val(s, t):
        v = evalt.value(t, s.env)
        if v is None:
            b = s.of(t) if t.op != "lin" else ()
            if b and all(x in (0, 1) for x in b):
                v = sum(x << i for i, x in enumerate(b))
                v = v - (1 << 64) if v >> 63 else v
        return v

    def fit(s, v, ty):
        """the bits of a value of the type"""
        if ty not in INT:
            return v
        lo, hi = INT[ty]
        w = (hi - lo).bit_length()
        if w >= 64:
            return v
        return v[:w] + ((v[w - 1],) if lo < 0 else (0,)) * (64 - w)

    def _of(s, t):
        o = t.op
        v = evalt.value(t, s.env)
        if v is not None:
            return tuple((v >> i) & 1 for i in range(64))
        if o == "e":
            k = s.byte(t)
            return None if k is None else k if isinstance(k, tuple) else tuple(("B", k, i) for i in range(8)) + (0,) * 56
        if s.total is not None and s.total(t):
            return tuple(("S", i) for i in range(32)) + ((("S", 31),) if signed(t) else (0,)) * 32
        if o in ("band", "bor", "bxor"):
            a, b = s.of(t.a[0]), s.of(t.a[1])
            out = []
            for i, (x, y) in enumerate(zip(a, b)):
                if x in (0, 1):
                    x, y = y, x
                if o == "band":
                    r = 0 if y == 0 else x if y == 1 or x == y else None
                elif o == "bor":
                    r = 1 if y == 1 else x if y == 0 or x == y else None
                else:
                    r = 0 if x == y else x if y == 0 else inv(x) if y == 1 else None
                out.append(("?", t, i) if r is None else r)
            return tuple(out)
        if o == "bnot":
            return tuple(inv(x) for x in s.fit(s.of(t.a[0]), t.a[1] if len(t.a) > 1 else "")) if t.a[0].op != "lin" else \
                s.sum(-1 - t.a[0].a[0], tuple((k, -c) for k, c in t.a[0].a[1]), t.a[1] if len(t.a) > 1 else tyof.get(t, ""))
        if o in ("shl", "shr"):
            k = s.val(t.a[1])
            if k is None or not 0 <= k < 64:
                return None
            a = s.of(t.a[0])
            if o == "shr":
                return a[k:] + (a[63],) * k
            return s.fit((0,) * k + a[:64 - k], t.a[2] if len(t.a) > 2 else tyof.get(t, ""))
        if o == "cast":
            return s.fit(s.of(t.a[1]), t.a[0])
        if o == "lin":
            return s.sum(t.a[0], t.a[1], evalt.typ(t) or "")
        if o == "rol" and s.val(t.a[1]) is not None and tyof.get(t) in INT:
            w = width(t)
            k = s.val(t.a[1]) % w
            a = s.of(t.a[0])[:w]
            return s.fit(a[w - k:] + a[:w - k] + (0,) * (64 - w), tyof.get(t))
        if o == "pure":
            n = t.a[0].split("::")[-1]
            if n in ("from_le_bytes", "from_be_bytes"):
                w = evalt.value(length(t.a[1]), s.env)
                if w is None or w > 8:
                    return None
                bs = [s.of(elem(t.a[1], C(i)))[:8] for i in range(w)]
                if n == "from_be_bytes":
                    bs.reverse()
                v = tuple(x for b in bs for x in b)
                return s.fit(v + (0,) * (64 - len(v)), tyof.get(t, ""))
            if n in ("swap_bytes", "to_be", "from_be"):
                w = width(t.a[1])
                a = s.of(t.a[1])[:w]
                v = tuple(x for i in reversed(range(0, w, 8)) for x in a[i:i + 8])
                return s.fit(v + (0,) * (64 - w), tyof.get(t, ""))
            if n in ("wrapping_neg", "neg"):
                return s.sum(0, ((t.a[1], -1),), tyof.get(t, ""))
            if n == "wrapping_sub" and s.val(t.a[1]) is not None:
                return s.sum(s.val(t.a[1]), ((t.a[2], -1),), tyof.get(t, ""))
            if n in ("wrapping_add", "wrapping_sub") and s.val(t.a[2]) is not None:
                return s.sum(s.val(t.a[2]) * (1 if n.endswith("add") else -1), ((t.a[1], 1),), tyof.get(t, ""))
        if o == "e" or o in ("f", "vf"):
            return None
        return None

    def sum(s, c, ks, ty):
        """bits of c + sum of k*atom: of one bit negated, or of summands without a common bit"""
        if len(ks) == 1 and abs(ks[0][1]) == 1:
            v = s.of(ks[0][0])
            if all(x == 0 for x in v[1:]):
                b = v[0]
                if ks[0][1] == -1 and c == 0:
                    return s.fit((b,) * 64, ty)
                if ks[0][1] == 1 and c == -1:
                    return s.fit((inv(b),) * 64, ty)
        acc = None
        if c >= 0 and all(k > 0 and k & (k - 1) == 0 for _, k in ks):
            acc = [(c >> i) & 1 for i in range(64)]
            for x, k in ks:
                n = k.bit_length() - 1
                v = ((0,) * n + s.of(x))[:64]
                for i in range(64):
                    if v[i] == 0:
                        continue
                    if acc[i] != 0:
                        return None
                    acc[i] = v[i]
            acc = s.fit(tuple(acc), ty)
        return acc


def inv(x):
    return 1 - x if x in (0, 1) else x[1] if x[0] == "~" else ("~", x)


def width(t):
    ty = tyof.get(t) or evalt.typ(t)
    if ty == "bool":
        return 1
    return (INT[ty][1] - INT[ty][0]).bit_length() if ty in INT else 64


def signed(t):
    ty = tyof.get(t) or evalt.typ(t)
    return ty in INT and INT[ty][0] < 0


def mod32(t, out=None, k=1):
    """{atom: coefficient} and constant of a sum taken modulo 2^32"""
    out = {} if out is None else out
    if t.op == "c":
        out[None] = out.get(None, 0) + k * t.a[0]
    elif t.op == "lin":
        out[None] = out.get(None, 0) + k * t.a[0]
        for x, c in t.a[1]:
            mod32(x, out, k * c)
    elif t.op == "cast" and t.a[0] in INT and (INT[t.a[0]][1] - INT[t.a[0]][0]).bit_length() >= 32 and \
            (width(t.a[1]) >= 32 or not signed(t.a[1])):
        mod32(t.a[1], out, k)
    elif t.op == "band" and C(0xFFFFFFFF) in t.a:
        mod32(t.a[0] if t.a[1] is C(0xFFFFFFFF) else t.a[1], out, k)
    elif t.op == "pure" and t.a[0].split("::")[-1] in ("wrapping_add", "wrapping_sub", "wrapping_add_signed", "wrapping_add_unsigned", "wrapping_sub_unsigned") \
            and width(t) >= 32:
        mod32(t.a[1], out, k)
        mod32(t.a[2], out, k if "add" in t.a[0].split("::")[-1] else -k)
    elif t.op == "pure" and t.a[0].split("::")[-1] in ("wrapping_neg",) and width(t) >= 32:
        mod32(t.a[1], out, -k)
    else:
        out[t] = out.get(t, 0) + k
    return out


def lin32(t):
    o = {x: c % (1 << 32) for x, c in mod32(t).items()}
    return {x: c for x, c in o.items() if c}


class Look:
    """what one path of one round does with the bytes at its cursor"""

    def __init__(s, p, base, cur, env=None):
        s.p, s.base, s.cur, s.env = p, base, cur, env or {}

    def offset(s, idx):
        d = sub(idx, s.cur)
        v = evalt.value(d, s.env) if d.op != "c" else d.a[0]
        return v

    def byte(s, t):
        """offset of the byte an element term of the buffer is"""
        if t.op != "e":
            return None
        b, i = t.a
        while b.op == "sl":
            b, i = b.a[0], add(i, b.a[1])
        if b is s.base:
            return s.offset(i)
        return None

    def bits(s, total=None, known=None):
        return Bits(s.byte, total, known, s.env)

    def at(s, content, k, bits):
        """the 8 bits of the byte at offset k of the content"""
        b = content
        while True:
            if b is s.base:
                return [bits.known.get(x, x) for x in bits.of(elem(b, add(s.cur, C(k))))[:8]]
            if b.op == "ue":
                j = s.offset(b.a[1])
                if j is None:
                    return None
                if j == k:
                    return list(bits.of(b.a[2])[:8])
                b = b.a[0]
                continue
            if b.op == "usl":
                lo, hi = s.offset(b.a[1]), s.offset(b.a[2])
                if lo is None or hi is None:
                    return None
                if lo <= k < hi:
                    return s.part(b.a[3], k - lo, bits)
                b = b.a[0]
                continue
            return None

    def part(s, b, k, bits):
        while b.op == "sl" and b.a[1].op == "c":
            b, k = b.a[0], k + b.a[1].a[0]
        if b.op == "bytes":
            k = k if b.a[1] == "le" else b.a[0] - 1 - k
            return list(bits.of(b.a[2])[8 * k:8 * k + 8])
        if b.op in ("ue", "usl") or b is s.base:
            return s.at(b, k, bits) if b is s.base else list(bits.of(elem(b, C(k)))[:8])
        return list(bits.of(elem(b, C(k)))[:8])

    def written(s, content):
        """offsets that may have changed"""
        out, b = set(), content
        while b is not s.base:
            if b.op == "ue":
                out.add(s.offset(b.a[1]))
            elif b.op == "usl":
                lo, hi = s.offset(b.a[1]), s.offset(b.a[2])
                if lo is None or hi is None:
                    return None
                out |= set(range(lo, hi))
            else:
                return None
            b = b.a[0]
        return None if None in out else out

    def sets(s):
        """value sets of the bytes on this path, and the patterns excluded"""
        A, neg = {}, []
        bits = s.bits()
        for f in s.p.facts:
            es = {x for x in subterms(f) if x.op == "e" and s.byte(x) is not None}
            ks = {s.byte(x) for x in es}
            if len(ks) == 1:
                k = ks.pop()
                ok = set()
                for v in A.get(k, ANY):
                    h = evalt.holds(f, dict(s.env, **{}) | {x: v for x in es})
                    if h is not False:
                        ok.add(v)
                A[k] = frozenset(ok)
            elif ks and f.op in ("eq0", "ne0"):
                pat = s.pattern(f.a[0], bits)
                if pat is None:
                    continue
                if f.op == "eq0":
                    for k, w in pat.items():
                        A[k] = A.get(k, ANY) & w
                else:
                    neg.append(pat)
        return A, neg

    def pattern(s, t, bits):
        """the byte values for which t is zero, when that is a condition on each byte alone"""
        if t.op == "lin" and len(t.a[1]) == 1 and abs(t.a[1][0][1]) == 1:
            c = -t.a[0] * t.a[1][0][1]
            v = bits.of(t.a[1][0][0])
        else:
            c, v = 0, bits.of(t)
        out = {}
        for i, x in enumerate(v):
            want = (c >> i) & 1
            if x in (0, 1):
                if x != want:
                    return {0: frozenset()}
                continue
            if x[0] == "~":
                x, want = x[1], 1 - want
            if x[0] != "B":
                return None
            out[x[1]] = out.get(x[1], ANY) & frozenset(u for u in ANY if (u >> x[2]) & 1 == want)
        return out


def matched(A, neg, pats):
    """True/False/None: the opcode is present on this path"""
    if any(all(A.get(k, ANY) <= w for k, w in p.items()) for p in pats):
        return True
    for p in pats:
        if any(not (A.get(k, ANY) & w) for k, w in p.items()):
            continue
        # an excluded pattern covers what is left of this one
        if any(all(A.get(k, ANY) & p.get(k, ANY) <= w for k, w in n.items()) for n in neg):
            continue
        return None
    return False


def known_bits(A):
    out = {}
    for k, w in A.items():
        for i in range(8):
            vs = {(v >> i) & 1 for v in w}
            if len(vs) == 1:
                out[("B", k, i)] = vs.pop()
    return out


BUF = lambda n="buf": mk("D", mk("p", n))


def maker(rule, P, name):
    """(conversion function, {field: initial value}) a constructor of a filtering reader selects"""
    ks = [k for k in P.bodies if k.split("::")[-1] == name and "SimpleReader" in k and "#" not in k]
    if len(ks) != 1:
        rule.bad("missing:" + name, name, "constructor not found")
        return None
    eng = flow.Engine(P)
    ps = [p for p in eng.run(ks[0]) if p.kind == "return"]
    rule.ran(eng, ps, ks[0])
    got = set()
    for p in ps:
        for x in subterms(p.ret):
            if x.op == "a" and any(v.op == "fn" for v in x.a[3]):
                fn = [v for v in x.a[3] if v.op == "fn"]
                got.add((fn[0].a[0] if len(fn) == 1 else None, x))
    got = list(got)
    if len(got) != 1 or got[0][0] not in P.bodies:
        rule.bad("shape:" + name, ks[0], "the constructor does not select one conversion function")
        return None
    a = got[0][1]
    START[name] = [{n: v for n, v in leaves(p.ret)} for p in ps]
    return got[0][0], dict(zip(a.a[2], a.a[3]))


class Fn:
    """paths of a conversion function: rounds of its loop over the buffer, exits, and what fixed state it has"""

    def __init__(s, rule, P, key, init):
        s.key, s.init = key, init
        b = P.bodies[key]
        s.where = "%s (%s)" % (key, b.file())
        s.eng = flow.Engine(P)
        s.ps = s.eng.run(key)
        rule.ran(s.eng, s.ps, key)
        s.me = mk("d", mk("p", "self"))
        s.buf = None
        for p in s.ps:
            for e in p.ev:
                if e.kind == "loop":
                    for h in e.havoc:
                        if h[2].op in ("lve", "lv") and p.x.get(("init", h[2])) is not None and p.x[("init", h[2])].op == "d" \
                                and p.x[("init", h[2])] is not s.me:
                            s.buf = p.x[("init", h[2])]
                            s.root, s.base, s.ev = h[0], h[2], e
            if s.buf is not None:
                break
        # state the function never changes keeps its initial value
        self_root = mk("D", mk("p", "self"))
        s.fixed = {}
        s.state = []
        for n, v in init.items():
            f = field(s.me, n)
            if any(p.load(self_root, (("f", n),)) is not f for p in s.ps if p.kind == "return"):
                s.state.append(n)
            elif v.op == "c":
                s.fixed[f] = v.a[0]
        s.self_root = self_root

    def live(s, env=None):
        env = dict(s.fixed, **{}) | (env or {})
        for p in s.ps:
            if p.kind in ("return", "loop") and not any(evalt.holds(f, env) is False for f in p.facts):
                yield p


def address(fn, places, off, sign, is_src):
    """term -> whether it is the address field of the instruction plus/minus its absolute position"""
    memo = {}

    def total(t):
        if t not in memo:
            memo[t] = False
            memo[t] = t.op in ("pure", "lin") and width(t) == 32 and any(one(t, c) for c in places)
        return memo[t]

    def one(t, cur):
        o = lin32(t)
        pos = [x for x in o if x.op == "f" and x.a[0] is fn.me and x.a[1] in fn.state] if None not in o else \
            [x for x in o if x is not None and x.op == "f" and x.a[0] is fn.me and x.a[1] in fn.state]
        if len(pos) != 1:
            return False
        i0 = fn.init[pos[0].a[1]]
        if i0.op != "c":
            return False
        want = {x: k * sign for x, k in mod32(cur).items()}
        want[pos[0]] = want.get(pos[0], 0) + sign
        want[None] = want.get(None, 0) + sign * (off - i0.a[0])
        for x, k in want.items():
            if (o.pop(x, 0) - k) % (1 << 32):
                return False
        rest = list(o.items())
        return len(rest) == 1 and rest[0][0] is not None and rest[0][1] == 1 and is_src(rest[0][0])
    return total


def floor_of(t, n, w):
    """t is the largest multiple of w not above n"""
    if t is sub(n, mk("rem", n, C(w))):
        return True
    if t.op == "lin" and t.a[0] == 0 and len(t.a[1]) == 1 and t.a[1][0] == (mk("div", n, C(w)), w):
        return True
    if t.op == "band" and n in t.a:
        m = t.a[0] if t.a[1] is n else t.a[1]
        v = evalt.value(m, {})
        return v is not None and v % (1 << 64) == (1 << 64) - w
    if t.op == "shl" and t.a[1].op == "c" and 1 << t.a[1].a[0] == w and t.a[0].op == "shr" and t.a[0].a[0] is n and t.a[0].a[1] is t.a[1]:
        return True
    return False


class Cursor:
    """Where a round looks: position of its first byte, how the round moves it, and whether rounds cover the data."""

    def __init__(s, fn, p, step):
        s.kind = None
        n = length(fn.buf)
        lvs = [h for h in fn.ev.havoc if h[2].op == "lv" and p.x.get(("init", h[2])) is C(0)]
        s.counts = [h for h in lvs if p.kind == "loop" and evalt.value(sub(p.load(h[0], h[1]), h[2]), {}) == step]
        nx = [e for e in p.ev if e.kind == "next" and e.name in ("item", "done")]
        for e in nx:
            it, iv = e.vals[0], e.vals[1]
            if it.op == "it" and it.a[0] == "chunks" and it.a[2] is C(step) and len(it.a) > 3:
                s.kind, s.iv, s.base = "chunk", iv, mk("proj", fn.base, ("chunk", it.a[2], iv))
                s.cur, s.place = C(0), [h[2] for h in s.counts] + [mklin(0, {iv: step})]
                s.step = step
                return
            if it.op == "it" and it.a[0] == "step_by" and it.a[2] is C(step) and it.a[1].op == "it" and it.a[1].a[0] == "range" and it.a[1].a[1] is C(0):
                end = it.a[1].a[2]
                s.kind, s.base = "step", fn.base
                s.cur = mk("item", it, iv)
                s.place = [s.cur] + [h[2] for h in s.counts]
                s.step = step if floor_of(end, n, step) or end is sub(n, C(step - 1)) else None
                return
        if nx:
            return
        if p.kind == "loop":
            lvs = [h for h in lvs if p.load(h[0], h[1]) is not h[2]]
        else:
            lvs = [h for h in lvs if h[2] in set(subterms(p.ret))]
        if len(lvs) == 1:
            h = lvs[0]
            s.kind, s.base, s.cur, s.place = "count", fn.base, h[2], [h[2]]
            s.step = evalt.value(sub(p.load(h[0], h[1]), h[2]), {}) if p.kind == "loop" else None

    def content(s, fn, p):
        out = p.load(fn.root, ())
        if s.kind == "chunk":
            if out is fn.base:
                return s.base
            if out.op == "upd" and out.a[0] is fn.base and out.a[1] == s.base.a[1]:
                return out.a[2]
        return out


def linear(rule, P, name, fn):
    sp = SPEC[name]
    rounds = exits = conv = 0
    if fn.buf is None:
        return rule.bad(name + ":shape", fn.where, "no loop over the buffer found")
    n = length(fn.buf)
    for p in fn.live():
        st = fn.state
        if not any(e.kind == "loop" and e.x == fn.ev.x for e in p.ev):
            same = p.load(fn.root, ()) is fn.buf and all(p.load(fn.self_root, (("f", x),)) is field(fn.me, x) for x in st)
            if not (isc(p.ret, 0) and same and p.entails(ge0(sub(C(WIDTH - 1), n)))):
                rule.bad(name + ":early", fn.where, "returns %s without looking at the data although it may hold an instruction" % pp(p.ret)[:60])
            exits += 1
            continue
        cs = Cursor(fn, p, sp["step"])
        if cs.kind is None:
            rule.bad(name + ":cursor", fn.where, "no single position the data is looked at with")
            continue
        if p.kind == "return":
            if p.load(fn.root, ()) is not fn.base:
                rule.bad(name + ":tail", fn.where, "the bytes after the last complete instruction are changed")
            if cs.kind == "count":
                good = p.ret is cs.cur and p.entails(ge0(sub(add(cs.cur, C(WIDTH - 1)), n)))
            else:
                good = cs.step and (floor_of(p.ret, n, cs.step) or p.ret.op == "lv" and all(
                    any(h[2] is p.ret for h in Cursor(fn, q, sp["step"]).counts) for q in fn.live() if q.kind == "loop"))
            if not good:
                rule.bad(name + ":end", fn.where, "stops at %s of %s, returning %s" % (pp(cs.cur)[:60], pp(n), pp(p.ret)[:80]))
            for x in st:
                if p.load(fn.self_root, (("f", x),)) is not add(field(fn.me, x), p.ret):
                    rule.bad(name + ":pos", fn.where, "the position `%s` does not grow by the bytes passed: %s" % (x, pp(p.load(fn.self_root, (("f", x),)))[:120]))
            exits += 1
            continue
        rounds += 1
        cur = cs.cur
        if cs.kind == "count" and not guarded(fn, p, ge0(sub(n, add(cur, C(WIDTH))))):
            rule.bad(name + ":more", fn.where, "a round starts although fewer than %d bytes are left" % WIDTH)
        look = Look(p, cs.base, cur)
        A, neg = look.sets()
        m = matched(A, neg, sp["pats"])
        out = cs.content(fn, p)
        if m is None:
            rule.bad(name + ":opcode", fn.where, "a round does not decide by the opcode bits of the format: %s" % {k: sorted(v)[:6] for k, v in A.items() if v != ANY})
            continue
        if cs.step != sp["step"] + (sp["extra"] if m else 0):
            rule.bad(name + ":step", fn.where, "advances by %s bytes %s" % (cs.step, "after a conversion" if m else "without a conversion"))
        w = look.written(out)
        if not m:
            kb = known_bits(A)
            bits = look.bits(None, kb)
            if w is None or any(look.at(out, k, bits) != [kb.get(x, x) for x in B(k)] for k in w):
                rule.bad(name + ":other", fn.where, "bytes that are no branch instruction are changed")
            continue
        conv += 1
        if w is None or not w <= set(sp["out"]):
            rule.bad(name + ":written", fn.where, "a conversion writes to offsets %s" % (w,))
            continue
        kb = known_bits(A)
        low = 2 if sp["step"] == 4 else 1
        kb.update({("S", i): 0 for i in range(low)})
        plain = look.bits(None, kb)
        want = [kb.get(x, x) for x in sp["src"]]
        total = address(fn, cs.place, sp["off"], -1, lambda t: list(plain.of(t)[:32]) == want)
        decided_bits(p, look, total, kb)
        bits = look.bits(total, kb)
        for k, bs in sp["out"].items():
            got = look.at(out, k, bits)
            exp = [kb.get(x, x) for x in bs]
            if got != exp:
                rule.bad("%s:byte%d" % (name, k), fn.where, "byte %d of a converted instruction is %s, the format has %s" % (k, show(got), show(exp)))
                break
    if not rounds or not conv or not exits:
        rule.bad(name + ":paths", fn.where, "rounds %d, conversions %d, exits %d" % (rounds, conv, exits))
    rule.ok("filter", "%s: %d rounds, %d of them conversions, %d exits" % (name, rounds, conv, exits))


def guarded(fn, p, b):
    """b holds in a round before the data is looked at"""
    i = [k for k, e in enumerate(p.ev) if e.kind == "loop" and e.x == fn.ev.x][-1]
    looks = [e for e in p.ev[i:] if e.kind == "assert" and e.name == "bounds"]
    fs = p.facts[:looks[0].nf] if looks else p.facts
    return arith.entails(fs, b)


def decided_bits(p, look, total, kb):
    """bits of the sum the path has tested"""
    bits = look.bits(total, kb)
    for f in p.facts:
        if f.op not in ("eq0", "ne0"):
            continue
        t, c = f.a[0], 0
        if t.op == "lin" and len(t.a[1]) == 1 and abs(t.a[1][0][1]) == 1:
            t, c = t.a[1][0][0], -t.a[0] * t.a[1][0][1]
        free = [(i, x) for i, x in enumerate(bits.of(t)) if x not in (0, 1)]
        atoms = {x[1] if x[0] == "~" else x for i, x in free}
        if len(atoms) != 1:
            continue
        a = atoms.pop()
        if a[0] != "S":
            continue
        vals = set()
        for v in (0, 1):
            got = sum((y if y in (0, 1) else v if y[0] != "~" else 1 - v) << i for i, y in enumerate(bits.of(t)))
            if (got == c % (1 << 64)) == (f.op == "eq0"):
                vals.add(v)
        if len(vals) == 1:
            kb[a] = vals.pop()


def show(bs):
    if bs is None:
        return "not a function of the instruction"

    def one(x):
        if x in (0, 1):
            return str(x)
        if x[0] == "~":
            return "!" + one(x[1])
        if x[0] == "S":
            return "sum.%d" % x[1]
        if x[0] == "B":
            return "in%d.%d" % (x[1], x[2])
        return "%s.%d" % (pp(x[1])[:60], x[2])
    return "[" + " ".join(one(x) for x in bs) + "]"


ALLOWED = (1, 1, 1, 0, 1, 0, 0, 0)
BITNUM = (0, 1, 2, 2, 3, 3, 3, 3)
AT = 1 << 16        # where a round looks; any place far from both ends
OTHER = 0x12        # a byte that is neither 00 nor FF, nor an opcode


def x86(rule, P, fn):
    """The x86 filter: an E8/E9 opcode whose fourth address byte is 00 or FF is converted unless the opcodes of the
    preceding bytes forbid it."""
    name = "x86"
    if fn.buf is None:
        return rule.bad(name + ":shape", fn.where, "no loop over the buffer found")
    n = length(fn.buf)
    ps = list(fn.live())
    rounds = [p for p in ps if p.kind == "loop" and p.x.get("loop") == fn.ev.x]
    inner = [p for p in ps if p.kind == "loop" and p.x.get("loop") != fn.ev.x]
    outs = [p for p in ps if p.kind == "return"]
    # the state carried from round to round: where it looks, the place of the last opcode, the pending opcodes
    q = next((p for p in ps if any(e.kind == "loop" and e.x == fn.ev.x for e in p.ev)), None)
    if q is None:
        return rule.bad(name + ":shape", fn.where, "no loop over the buffer found")
    role = {}
    for h in fn.ev.havoc:
        i = q.x.get(("init", h[2]))
        if h[2].op != "lv" or i is None:
            continue
        v = evalt.value(i, {})
        if i.op == "f" and i.a[0] is fn.me and fn.init.get(i.a[1]) is C(0):
            role["mask"], role["field"] = h, i.a[1]
        elif v == 0 and not tyof.get(h[2], "usize").startswith("i"):
            role["i"] = h
        elif v in (-1, (1 << 64) - 1):
            role["prev"] = h
    if set(role) != {"mask", "field", "i", "prev"}:
        return rule.bad(name + ":shape", fn.where, "state of the filter not recognised: %s" % sorted(role))
    i, prev, m = (role[k][2] for k in ("i", "prev", "mask"))
    new = lambda p, k: p.load(role[k][0], role[k][1])
    base = fn.base
    posf = [x for x in fn.state if x != role["field"]]
    # exits
    for p in outs:
        looped = any(e.kind == "loop" and e.x == fn.ev.x for e in p.ev)
        kept = p.load(fn.root, ()) is (base if looped else fn.buf)
        if not kept:
            rule.bad(name + ":tail", fn.where, "the bytes after the last complete instruction are changed")
        if not looped:
            if not isc(p.ret, 0) or not p.entails(ge0(sub(C(4), n))) or any(p.load(fn.self_root, (("f", x),)) is not field(fn.me, x) for x in fn.state):
                rule.bad(name + ":early", fn.where, "returns %s without looking at the data although it may hold an instruction" % pp(p.ret)[:60])
            continue
        if p.ret is not i or not p.entails(ge0(sub(add(i, C(4)), n))):
            rule.bad(name + ":end", fn.where, "stops at %s of %s, returning %s" % (pp(i), pp(n), pp(p.ret)[:80]))
        for x in posf:
            if p.load(fn.self_root, (("f", x),)) is not add(field(fn.me, x), p.ret):
                rule.bad(name + ":pos", fn.where, "the position `%s` does not grow by the bytes passed" % x)
    rest = [p for p in outs if any(e.kind == "loop" and e.x == fn.ev.x for e in p.ev)]
    for d in range(1, 9):
        for k in range(16):
            env = dict(fn.fixed)
            env.update({i: AT, prev: AT - d, m: k})
            for p in rest:
                if any(evalt.holds(f, env) is False for f in p.facts):
                    continue
                v = evalt.value(p.load(fn.self_root, (("f", role["field"]),)), env)
                want = 0 if d > 3 else k << (d - 1)
                if v is None or (v - want) & 7:
                    rule.bad(name + ":carry", fn.where, "pending opcodes %d, %d bytes back, are carried to the next call as %s, not %d" % (k, d, v, want & 7))
    # rounds
    cases = done = 0
    seen = set()
    some, every = (0x00, 0xFF, OTHER), range(256)
    for op in every:
        isop = op in (0xE8, 0xE9)
        for d in range(1, 9) if isop else (1, 5):
            for k in range(16) if isop else (1,):
                pend = 0 if d > 3 else (k << (d - 1)) & 7
                rare = op == 0xE8 and (d, k) in ((1, 1), (1, 2), (1, 4), (5, 0))      # every byte value once per table row
                for b4 in (every if rare and d == 5 else some) if isop else (0,):
                    for bk in (every if rare and b4 == 0 else some) if pend and ALLOWED[pend] else (OTHER,):
                        for db in every if rare and b4 == 0 and bk == OTHER and d == 1 else some:
                            cases += 1
                            env = dict(fn.fixed)
                            env.update({i: AT, prev: AT - d, m: k})
                            sym = dict(env)
                            bs = {0: op, 1: OTHER, 2: OTHER, 3: OTHER, 4: b4}
                            j = 4 - BITNUM[pend]
                            if j != 4:
                                bs[j] = bk
                            for o, v in bs.items():
                                env[elem(base, C(AT + o))] = v
                            ms = lambda b: b in (0, 255)
                            hit = isop
                            skip = hit and pend and (not ALLOWED[pend] or ms(bk))
                            conv = hit and not skip and ms(b4)
                            again = conv and pend and ms(db)
                            if not conv and db:
                                continue
                            err = x86_case(fn, rounds, inner, role, env, sym, base, hit, skip, conv, again, pend, db, k, d, seen)
                            if err:
                                rule.bad(name + ":" + err[0], fn.where, "with opcode %02X, pending opcodes %d, last one %d bytes back, fourth address byte %02X: %s" % (op, k, d, b4, err[1]))
                                return
                            done += conv
    if not done:
        rule.bad(name + ":paths", fn.where, "nothing is converted")
    for p in rounds:
        if not guarded(fn, p, ge0(sub(n, add(i, C(5))))):
            rule.bad(name + ":more", fn.where, "a round starts although fewer than 5 bytes are left")
            break
    rule.ok("filter", "x86: %d round paths over %d state classes, %d conversions, %d exits" % (len(rounds) + len(inner), cases, done, len(outs)))


SRC86 = B(1) + B(2) + B(3) + B(4)


def x86_case(fn, rounds, inner, role, env, sym, base, hit, skip, conv, again, pend, db, k, d, seen):
    new = lambda p, r: p.load(role[r][0], role[r][1])
    i, prev, m = (role[r][2] for r in ("i", "prev", "mask"))
    idx = BITNUM[pend] * 8
    live = []
    for p in rounds + inner:
        if any(evalt.holds(f, env) is False for f in p.facts):
            continue
        live.append(p)
    good = None
    for p in live:
        look = Look(p, base, i, sym)
        out = p.load(fn.root, ())
        if not conv:
            if p in inner or out is not base:
                return "spurious", "the address is converted although it must not be"
            good = p
        else:
            L = x86_sum(fn, p, look, env, sym)
            if L is None:
                return "sum", "what is written is not the address minus the position of the next instruction"
            D, h, form = L
            e2 = dict(env)
            e2[D] = (OTHER << 24 | OTHER << 16 | OTHER << 8 | OTHER) & ~(0xFF << (24 - idx) & 0xFFFFFFFF) | db << (24 - idx)
            if e2[D] >> 31:
                e2[D] -= 1 << 32
            if any(evalt.holds(f, e2) is False for f in p.facts):
                continue
            good = p
            if p in inner:
                if not again:
                    return "again", "the sum is folded once more although it must not be"
                bits = look.bits(lambda t: t is D)
                if h is None:
                    return "again", "there is a second loop"
                want = [inv(x) for x in S(0, 32 - idx)] + S(32 - idx, idx)
                nv = p.load(h[0], h[1])
                got = None
                if form == "src":
                    got = list(bits.of(nv)[:32])
                elif address(fn, [look.cur], 5, -1, lambda t: list(bits.of(t)[:32]) == want)(nv):
                    got = want
                if got != want:
                    return "fold", "folding gives %s, the format has %s" % (show(got), show(want))
                continue
            if again:
                return "fold", "the sum is not folded although its byte at the pending opcode is 00 or FF"
            bits = look.bits(lambda t: t is D)
            w = look.written(out)
            if w is None or not w <= {1, 2, 3, 4}:
                return "written", "a conversion writes to offsets %s" % (w,)
            known = dict()
            for o, want in ((1, S(0, 8)), (2, S(8, 8)), (3, S(16, 8)), (4, [("S", 24)] * 8)):
                got = look.at(out, o, bits)
                if got != want and not sign_by_case(p, look, D, o, got):
                    return "byte%d" % o, "byte %d becomes %s, the format has %s" % (o, show(got), show(want))
        if p in inner:
            continue
        v = {r: evalt.value(new(p, r), env) for r in ("i", "prev", "mask")}
        if not hit:
            want = dict(i=AT + 1, prev=AT - d, mask=k)
        elif conv:
            want = dict(i=AT + 5, prev=AT, mask=pend)
        else:
            want = dict(i=AT + 1, prev=AT, mask=pend << 1 | 1)
        for r in want:
            if v[r] is None or ((v[r] - want[r]) & 7 if r == "mask" else v[r] != want[r]):
                return "state", "%s becomes %s, not %s" % ({"i": "the place of the next look", "prev": "the place of the last opcode", "mask": "the set of pending opcodes"}[r], v[r], want[r])
    if good is None:
        return "none", "no round does what the format asks for"
    return None


def sign_by_case(p, look, D, o, got):
    """the top byte chosen by a branch on its bit"""
    if o != 4:
        return False
    kb = {}
    decided_bits(p, look, lambda t: t is D, kb)
    return kb.get(("S", 24)) is not None and got == [kb[("S", 24)]] * 8


def x86_sum(fn, p, look, env, sym):
    """(the sum that is written, the loop variable, what the variable holds) when it is the address minus its position.
    The variable of the folding loop holds the address ("src"), or the sum itself ("sum"); without a loop it is None."""
    plain = look.bits()
    is_src = lambda t: list(plain.of(t)[:32]) == SRC86
    start = address(fn, [look.cur], 5, -1, is_src)
    loops = [e for e in p.ev if e.kind == "loop"]
    where = [t for f in p.facts for t in subterms(f)] + list(subterms(p.load(fn.root, ())))
    if len(loops) < 2:
        cands = {t for t in where if start(t)}
        return (cands.pop(), None, None) if len(cands) == 1 else None
    for h in loops[-1].havoc:
        lv = h[2]
        init = p.x.get(("init", lv))
        if lv.op != "lv" or init is None or width(lv) != 32:
            continue
        if start(init):
            return lv, h, "sum"
        if not is_src(init):
            continue
        total = address(fn, [look.cur], 5, -1, lambda t: t is lv)
        cands = {t for t in where + list(subterms(p.load(h[0], h[1]))) if total(t)}
        if len(cands) == 1:
            return cands.pop(), h, "src"
    return None


def reader(P, ty):
    ks = [k for k in P.bodies if ty in k and k.endswith("::read") and "Read>" in k and "#" not in k]
    return ks[0] if len(ks) == 1 else None


def path_of(t, me):
    """field path below self of a value"""
    out = []
    while t.op == "f":
        out.append(("f", t.a[1]))
        t = t.a[0]
    return tuple(reversed(out)) if t is me and out else None


def mod256(t):
    o = {}

    def go(t, k):
        if t.op == "c":
            o[None] = o.get(None, 0) + k * t.a[0]
        elif t.op == "lin":
            o[None] = o.get(None, 0) + k * t.a[0]
            for x, c in t.a[1]:
                go(x, k * c)
        elif t.op == "cast" and t.a[0] in INT:
            go(t.a[1], k)
        elif t.op == "band" and C(255) in t.a:
            go(t.a[0] if t.a[1] is C(255) else t.a[1], k)
        elif t.op == "rem" and t.a[1] is C(256):
            go(t.a[0], k)
        elif t.op == "pure" and t.a[0].split("::")[-1] in ("wrapping_add", "wrapping_sub"):
            go(t.a[1], k)
            go(t.a[2], k if t.a[0].endswith("add") else -k)
        else:
            o[t] = o.get(t, 0) + k
    go(t, 1)
    return {x: c % 256 for x, c in o.items() if c % 256}


def diff256(a, b):
    x, y = mod256(a), mod256(b)
    return {k: (x.get(k, 0) - y.get(k, 0)) % 256 for k in set(x) | set(y) if (x.get(k, 0) - y.get(k, 0)) % 256}


def delta(rule, P):
    key = reader(P, "delta::")
    mk_ = [k for k in P.bodies if "DeltaReader" in k and k.split("::")[-1] == "new" and "#" not in k]
    if key is None or len(mk_) != 1:
        return rule.bad("delta:missing", "delta", "the delta reader was not found")
    where = "%s (%s)" % (key, P.bodies[key].file())
    eng = flow.Engine(P)
    ps = eng.run(key)
    rule.ran(eng, ps, key)
    me, sroot, broot = mk("d", mk("p", "self")), mk("D", mk("p", "self")), mk("D", mk("p", "buf"))
    rounds = oks = 0
    # the constructor: distance as given, an empty ring
    init = {}
    e2 = flow.Engine(P)
    for p in e2.run(mk_[0]):
        if p.kind == "return":
            for n, v in leaves(p.ret):
                init[n] = v
    for p in ps:
        reads = [e for e in p.ev if e.kind == "call" and e.name == "Read::read"]
        if p.kind == "return":
            v = p.variant_of(p.ret)
            if v == "Ok":
                oks += 1
                got = field(vfield(reads[0].ret, "Ok"), "0") if reads else None
                loops = [e for e in p.ev if e.kind == "loop"]
                if len(reads) != 1 or field(vfield(p.ret, "Ok"), "0") is not got and not p.entails(eqi(field(vfield(p.ret, "Ok"), "0"), got)):
                    rule.bad("delta:count", where, "the count returned is not the count read")
                elif not loops and not p.entails(ge0(sub(ZERO, got))):
                    rule.bad("delta:skip", where, "data is returned without being converted")
                for e in loops[:1]:
                    its = htab.rounds(ps, p, e, got)
                    if not its:
                        rule.bad("delta:part", where, "not exactly the bytes read are converted")
                    for q, j, _ in its or ():
                        at = innermost(q.load(broot, ()))
                        if at is None or add(at[0], at[2]) is not j and not q.entails(eqi(add(at[0], at[2]), j)):
                            rule.bad("delta:part", where, "round %s converts byte %s" % (pp(j)[:60], pp(at[0])[:60] if at else "-"))
                    for h in e.havoc:
                        if h[0] is sroot and p.load(h[0], h[1]) is not h[2]:
                            rule.bad("delta:kept", where, "the ring or its position is changed after the bytes are converted")
            continue
        if p.kind != "loop":
            continue
        rounds += 1
        ev = [e for e in p.ev if e.kind == "loop" and e.x == p.x["loop"]][-1]
        bases = {h[2] for h in ev.havoc}
        ring = [h for h in ev.havoc if h[0] is sroot and h[2].op == "lve" and p.load(h[0], h[1]).op == "ue"]
        pos = [h for h in ev.havoc if h[0] is sroot and h[2].op == "lv" and p.load(h[0], h[1]) is not h[2]]
        data = p.load(broot, ())
        new = innermost(data)
        if len(ring) != 1 or len(pos) != 1 or new is None:
            rule.bad("delta:shape", where, "a round does not read and write one byte and one ring slot")
            continue
        for h in (ring[0], pos[0]):
            i = p.x.get(("init", h[2]), h[3])
            if path_of(i, me) != tuple(h[1]):
                rule.bad("delta:kept", where, "the ring or its position does not go on from the bytes before: %s" % pp(i)[:100])
        rt = p.load(ring[0][0], ring[0][1])
        w, stored = rt.a[1], rt.a[2]
        j, val, _ = new
        old, hist = None, None
        if val.op == "pure" and val.a[0].split("::")[-1] == "wrapping_add":
            for x, y in ((val.a[1], val.a[2]), (val.a[2], val.a[1])):
                if y.op == "e" and y.a[0] is ring[0][2]:
                    old, hist = x, y
        if hist is None or old.op != "e" or base_index(old) is None or old.a[1] is not j and not p.entails(eqi(old.a[1], j)):
            rule.bad("delta:sum", where, "a byte becomes %s, not itself plus the ring's byte" % pp(val)[:160])
            continue
        if rt.a[0] is not ring[0][2] or stored is not val:
            rule.bad("delta:ring", where, "the ring does not receive the converted byte")
        np_ = p.load(pos[0][0], pos[0][1])
        step = diff256(np_, pos[0][2])
        if set(step) != {None} or step[None] not in (1, 255):
            rule.bad("delta:step", where, "the ring position moves by %s" % step)
            continue
        s = 1 if step[None] == 1 else -1
        d = diff256(hist.a[1], w)           # must be -s*distance
        dist = [x for x in d if x is not None and x.op == "f" and path_of(x, me)]
        if len(dist) != 1 or set(d) != set(dist) or (d[dist[0]] + s) % 256:
            rule.bad("delta:distance", where, "the ring is read %s slots from where it is written" % {pp(k) if k is not None else "": v for k, v in d.items()})
            continue
        w0 = diff256(w, pos[0][2])
        if set(w0) - {None}:
            rule.bad("delta:slot", where, "the ring is written at %s" % pp(w)[:100])
        dn, rn, pn = dist[0].a[1], ring[0][1][-1][1], pos[0][1][-1][1]
        if init.get(dn) is None or init[dn].op != "p" and (init[dn].op != "cast" or init[dn].a[1].op != "p"):
            rule.bad("delta:init", where, "the distance is not the one given: %s" % pp(init.get(dn))[:80])
        r0 = init.get(rn)
        if r0 is None or r0.op != "rep" or r0.a[0] is not C(0) or evalt.value(length(r0), {}) != 256:
            rule.bad("delta:init-ring", where, "the ring does not start as 256 zeros")
    if not rounds or not oks:
        rule.bad("delta:paths", where, "rounds %d, successful reads %d" % (rounds, oks))
    rule.ok("filter", "delta: %d rounds, %d successful reads" % (rounds, oks))


def leaves(t):
    if t.op == "a":
        for n, v in zip(t.a[2], t.a[3]):
            if v.op == "a" and v.a[2]:
                yield from leaves(v)
            else:
                yield n, v


def innermost(t):
    """(index, value, where its part of the data starts) of the one byte a round changed"""
    off = ZERO
    while t.op == "usl":
        off = add(off, t.a[1])
        t = t.a[3]
    return (t.a[1], t.a[2], off) if t.op == "ue" and t.a[0].op != "ue" else None


def base_index(e):
    return e.a[1]


def framing(rule, P):
    """The reader that buffers for the branch filters."""
    key = reader(P, "SimpleReader")
    if key is None:
        return rule.bad("buffer:missing", "bcj", "the buffering reader was not found")
    where = "%s (%s)" % (key, P.bodies[key].file())
    eng = flow.Engine(P)
    ps = eng.run(key)
    rule.ran(eng, ps, key)
    me, sroot, broot = mk("d", mk("p", "self")), mk("D", mk("p", "self")), mk("D", mk("p", "buf"))
    buf = mk("d", mk("p", "buf"))
    loops = [e for p in ps for e in p.ev if e.kind == "loop"]
    if not loops:
        return rule.bad("buffer:shape", where, "no loop found")
    win = cells = None
    for e in loops:
        for h in e.havoc:
            q = next(p for p in ps if any(x is e for x in p.ev))
            i = q.x.get(("init", h[2]))
            if h[2].op == "lve" and i is not None and path_of(i, me):
                win = (h[0], h[1], h[2], path_of(i, me))
                lid = e.x
    if win is None:
        return rule.bad("buffer:shape", where, "the buffer between the source and the filter was not found")
    mine = [p for p in ps if any(e.kind == "loop" and e.x == lid for e in p.ev)]
    state = {}      # loop variable -> (root, path in the loop, path below self)
    local = {}
    for p in mine:
        ev = next(e for e in p.ev if e.kind == "loop" and e.x == lid)
        for h in ev.havoc:
            i = p.x.get(("init", h[2]))
            if h[2].op != "lv" or i is None:
                continue
            sp = path_of(i, me)
            if sp and h[2] is not win[2]:
                state[h[2]] = (h[0], h[1], sp)
            elif not sp:
                local[h[2]] = (h[0], h[1], i)
    facts = [Look2(p, lid, win) for p in mine]
    copies = [x for x in facts if x.copy]
    reads = [x for x in facts if x.read]
    if not copies or not reads:
        return rule.bad("buffer:shape", where, "copies out %d, reads %d" % (len(copies), len(reads)))
    one = lambda t: t if t.op == "lv" else None
    Ps = {one(x.copy[2]) for x in copies}
    P0 = Ps.pop() if len(Ps) == 1 else None
    if P0 is None or P0 not in state:
        return rule.bad("buffer:shape", where, "positions of the buffer not recognised: %s" % ", ".join(pp(x) if x is not None else "-" for x in Ps))
    drops = lambda x, k: sub(k, fin(x.p, state[k], x.p.kind, sroot)) is x.copy[3]
    F = [k for k in state if k is not P0 and any(not x.read and x.p.kind in ("return", "loop") and x.copy[3].op != "c" and drops(x, k)
                                                 or x.copy[3] is k and isc(fin(x.p, state[k], x.p.kind, sroot), 0) for x in copies)]
    if len(F) != 1:
        return rule.bad("buffer:shape", where, "the count of converted bytes was not recognised")
    F0 = F[0]
    plain = [x for x in reads if not x.moved]
    U = {k for x in plain for k in state if k not in (P0, F0) and (x.read[0] is k or x.read[0].op == "lin" and k in dict(x.read[0].a[1]))}
    if len(U) != 1:
        return rule.bad("buffer:read-at", where, "data is not read to behind what the buffer holds")
    U0 = U.pop()
    ks = (P0, F0, U0)
    flags = [k for k in state if k not in ks and any(ended(x.p, k) is not None for x in facts)]
    n = 0
    for name, rs in sorted(START.items()):
        for init in rs:
            for k in (F0, U0) + tuple(flags):
                v = init.get(state[k][2][-1][1])
                if v is None or not isc(v, 0):
                    rule.bad("buffer:start", name, "a new reader starts with %s = %s" % (state[k][2][-1][1], pp(v) if v is not None else "-"))
    for x in facts:
        p = x.p
        if p.kind not in ("return", "loop"):
            continue
        n += 1
        bad = lambda k, t: rule.bad("buffer:" + k, where, t)
        same = lambda a, b: a is b or p.entails(eqi(a, b))
        c = x.copy[3] if x.copy else ZERO
        Pv, Fv, Uv = add(P0, c), sub(F0, c), U0
        if x.copy and not p.entails(ge0(sub(F0, c))):
            bad("ahead", "bytes that are not converted yet are handed out")
        if x.copy and x.copy[1] is not win[2]:
            bad("from", "handed out are not bytes of the buffer")
        if x.moved:
            if not same(x.moved[0], Pv):
                bad("rotate", "the buffer is moved by %s while it starts at %s" % (pp(x.moved[0])[:60], pp(Pv)[:60]))
            Pv = ZERO
        end = None
        if x.read:
            lo, hi, r = x.read
            if not same(lo, add(Pv, add(Fv, Uv))):
                bad("read-at", "data is read to %s, which is not right behind what the buffer holds" % pp(lo)[:100])
            if not x.moved and not p.entails(neg(eqi(lo, hi))) and not p.entails(ge0(sub(sub(hi, lo), ONE))):
                bad("full", "the source is asked although the buffer may have no room, which looks like its end")
            if flags and not any(ended(p, k) is False for k in flags):
                bad("ended", "the source is asked again after its end")
            v = p.variant_of(r)
            if v == "Ok":
                g = field(vfield(r, "Ok"), "0")
                if p.entails(ge0(sub(ZERO, g))):
                    if x.code:
                        bad("empty", "the filter runs without new data")
                    Fv, Uv, end = add(Fv, Uv), ZERO, True
                else:
                    if not p.entails(ge0(sub(g, ONE))):
                        bad("zero", "the end of the source is not told apart")
                    if len(x.code) != 1:
                        bad("convert", "new data is converted %d times" % len(x.code))
                        continue
                    clo, chi, k = x.code[0]
                    if not same(clo, add(Pv, Fv)) or not same(chi, add(Pv, add(Fv, add(Uv, g)))):
                        bad("convert-at", "converted are %s to %s, not what is buffered and unconverted" % (pp(clo)[:80], pp(chi)[:80]))
                    Fv, Uv = add(Fv, k), sub(add(Uv, g), k)
        elif x.code:
            bad("convert", "the filter runs without new data")
            continue
        if p.kind == "return" and p.variant_of(p.ret) == "Err" and x.read is None:
            continue
        for lv, want, what in ((P0, Pv, "start"), (F0, Fv, "count of converted bytes"), (U0, Uv, "count of unconverted bytes")):
            got = fin(p, state[lv], p.kind, sroot)
            if not same(got, want):
                bad("state", "the %s of the buffer becomes %s, not %s" % (what, pp(got)[:100], pp(want)[:100]))
        for k in flags:
            got = fin(p, state[k], p.kind, sroot)
            if end and not isc(got, 1):
                bad("end", "the end of the source is not remembered")
            if not end and got is not k and not (x.read is None and p.kind == "return"):
                bad("end", "the end of the source is assumed before it is reached")
        # what the caller gets
        D = {}
        for lv, (root, path, init) in local.items():
            if p.kind == "loop":
                D[lv] = sub(p.load(root, path), lv)
        if p.kind == "return" and p.variant_of(p.ret) == "Ok":
            got = field(vfield(p.ret, "Ok"), "0")
            base = sub(got, c)
            lv = base if base.op == "lv" else None
            cnt = [k for k in local if same(k, base)]
            if not cnt and not (same(got, c) and isc(c, 0) and any(p.entails(eqi(k, ZERO)) for k in local)):
                bad("count", "the count returned is %s" % pp(got)[:100])
            full = any(same(k, c) and local[k][2].op != "c" for k in local) or \
                any(p.entails(eqi(add(k, c), length(buf))) for k in local)
            if not full and not any(ended(p, k) for k in flags) and not p.entails(ge0(sub(got, ONE))):
                bad("early", "nothing is returned although the source has not ended")
        if x.copy:
            lo = x.copy[0]
            if lo not in local or not isc(local[lo][2], 0):
                bad("to", "bytes are handed out to %s of the caller's buffer" % pp(lo)[:80])
    # the counters of what the caller got start equal (or at the room and fall), so one round may use any of them
    rep_ = next((k for k in local if isc(local[k][2], 0)), None)

    def unify(t):
        return rewrite(t, lambda y: None if y not in local else rep_ if isc(local[y][2], 0) else
                       sub(length(buf), rep_) if local[y][2] is length(buf) and rep_ is not None else None)
    # progress of the caller's counters on every further round
    for x in facts:
        if x.p.kind != "loop" or x.p.x.get("loop") != lid:
            continue
        c = x.copy[3] if x.copy else ZERO
        for lv, (root, path, init) in local.items():
            if lv.op != "lv" or not (isc(init, 0) or init is length(buf)):
                continue
            d = sub(x.p.load(root, path), lv)
            want = c if isc(init, 0) else sub(ZERO, c)
            if d is not want and unify(d) is not unify(want) and not x.p.entails(eqi(d, want)):
                rule.bad("buffer:counter", where, "a counter of the bytes handed out changes by %s instead of %s" % (pp(d)[:80], pp(want)[:60]))
    if not any(ended(x.p, k) is not None for x in facts for k in flags):
        rule.bad("buffer:end", where, "the end of the source is not remembered")
    rule.ok("filter", "buffer: %d paths, %d with a read" % (n, len(reads)))


def ended(p, k):
    for f in p.facts:
        if f is k:
            return True
        if f.op == "not" and f.a[0] is k:
            return False
    return None


def fin(p, st, kind, sroot):
    return p.load(st[0], st[1]) if kind == "loop" else p.load(sroot, st[2])


class Look2:
    """What one path of the reader does with its buffer: copy out, move to the front, read behind, convert."""

    def __init__(s, p, lid, win):
        s.p = p
        s.copy = s.read = s.moved = None
        s.code = []
        wr, wp = win[0], tuple(win[1])

        def within(a):
            if a.op == "r" and a.a[1] is wr and tuple(a.a[2])[:len(wp)] == wp:
                rest = tuple(a.a[2])[len(wp):]
                if not rest:
                    return ZERO, length(win[2])
                if len(rest) == 1 and rest[0][0] == "sl":
                    return rest[0][1], rest[0][2]
            return None
        i = next(k for k, e in enumerate(p.ev) if e.kind == "loop" and e.x == lid)
        for e in p.ev[i:]:
            if e.kind != "call":
                continue
            a = e.args or []
            at = [within(x) for x in a]
            if e.name == "Read::read" and len(at) > 1 and at[1]:
                s.read = (at[1][0], at[1][1], e.ret)
            elif e.name == "slice::copy_from_slice" and len(at) == 2 and at[1] and not at[0] and a[0].op == "r":
                last = a[0].a[2][-1] if a[0].a[2] else None
                if last is not None and last[0] == "sl":
                    s.copy = (last[1], win[2], at[1][0], sub(at[1][1], at[1][0]))
            elif e.name == "slice::rotate_left" and at and at[0] and isc(at[0][0], 0):
                s.moved = (a[1],)
            elif e.name == "slice::copy_within":
                s.moved = (field(a[1], "start"),)
            elif e.name == "call-value" and len(at) > 2 and at[2]:
                s.code.append((at[2][0], at[2][1], e.ret))


def check(rule, P):
    for mkr, name in MAKERS.items():
        got = maker(rule, P, mkr)
        if got is None:
            continue
        fn = Fn(rule, P, *got)
        if name in SPEC:
            linear(rule, P, name, fn)
        else:
            x86(rule, P, fn)
    delta(rule, P)
    framing(rule, P)
    rule.floor("filter", 7)
