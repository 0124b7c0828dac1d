"""LZMA symbol coding: encoder and decoder against one reference of the format."""
import re
from sa.terms import *
from sa.prov import *
from sa.evalt import value, holds, element
from sa.steps import System, Stuck, place, went_well

TECHNIQUE = "evaluation of extracted transition systems over finite domains (abstract interpretation of MIR, constant domain), compared with a reference of the format"
RULE = """From the code of the symbol decoder and the symbol encoder, of their bit trees and of the range coder pair, the
transition systems are extracted (path summaries, one per way round each loop) and followed for: every model state with every
kind of symbol; every length; the first, second, middle and last distance of every distance slot; every byte value as a
literal and, with a match byte, at every position of the first difference; every size and symbol of a bit tree; every
direction of a bit decision at boundary values of range, low, carry and probability. The decoder must ask for, and the
encoder must write, exactly the bits the format prescribes with the prescribed context of each (tables are identified up to
renaming: the same table everywhere, different tables for different contexts), and both must end in the prescribed model state
and repeat distances, having put the prescribed byte, or repeated the prescribed distance and length; the decoder ends by bringing the range up to scale. The constructors must
derive the position masks from the lp and pb they are given and start the range coder as the format says."""
NOTE = RULE + " Initial probabilities are C16; the distance limits of the dictionary are C18; sizes of windows are C19."
LEVEL = "other"

M32 = 0xFFFFFFFF
DEC, ENC = "lzma_rust::range_dec::RangeDecoder", "lzma_rust::enc::range_enc::RangeEncoder"


def check(rule, P):
    for f in (primitives, trees, decoder, encoder, constructors, starts):
        try:
            f(rule, P)
        except Stuck as e:
            rule.bad("undecided:" + f.__name__, "lzma-rust/src", "%s: %s" % (f.__name__, e))
    rule.floor("bit", 100)
    rule.floor("tree", 300)
    rule.floor("symbol decoded", 500)
    rule.floor("symbol encoded", 500)
    rule.floor("start", 6)


def find(rule, P, owner, name):
    ks = [k for k in P.bodies if owner in k and k.split("::")[-1] == name and "#" not in k and "{" not in k]
    if len(ks) != 1:
        rule.bad("missing:" + name, "lzma-rust/src", "%s::%s not found" % (owner.split("::")[-1], name))
        return None
    return ks[0]


def names(P, owner, ns):
    return {k for k in P.bodies if owner in k and k.split("::")[-1] in ns and "#" not in k and "{" not in k}


def at(P, key):
    return "%s (%s)" % (key, P.bodies[key].file())


def last(e):
    return e.name.split("::")[-1]


# ---- the format ------------------------------------------------------------

def lit_state(s):
    return 0 if s < 4 else s - 3 if s < 10 else s - 6


def tree(tab, k, sym):
    m, out = 1, []
    for i in reversed(range(k)):
        b = sym >> i & 1
        out.append((tab + (m,), b))
        m = m << 1 | b
    return out


def rtree(tab, k, sym):
    m, out = 1, []
    for i in range(k):
        b = sym >> i & 1
        out.append((tab + (m,), b))
        m = m << 1 | b
    return out


def lens(tab, n, ps):
    n -= 2
    if n < 8:
        return [((tab + "choice", 0), 0)] + tree((tab + "low", ps), 3, n)
    if n < 16:
        return [((tab + "choice", 0), 1), ((tab + "choice", 1), 0)] + tree((tab + "mid", ps), 3, n - 8)
    return [((tab + "choice", 0), 1), ((tab + "choice", 1), 1)] + tree((tab + "high",), 8, n - 16)


def slot(d):
    if d < 4:
        return d
    n = d.bit_length() - 1
    return n << 1 | d >> (n - 1) & 1


def first(s):
    return s if s < 4 else (2 | s & 1) << ((s >> 1) - 1)


class Sym:
    """a symbol in a context: the bits the format prescribes for it and what the model is afterwards"""

    def __init__(self, kind, state=0, reps=(11, 22, 33, 44), pos=0, lc=3, lp=0, pb=2, byte=0, prev=0, match=0, dist=0, len=2, rep=0):
        self.__dict__.update(locals())
        ps = pos & ((1 << pb) - 1)
        r = list(reps)
        b = []
        if kind == "lit":
            b.append((("is_match", state, ps), 0))
            sub = ((pos & ((1 << lp) - 1)) << lc) + (prev >> (8 - lc))
            m, offs, mb = 1, 0x100 if state >= 7 else 0, match
            for i in reversed(range(8)):
                bit = byte >> i & 1
                mb <<= 1
                mbit = mb & offs
                b.append((("lit", sub, offs + mbit + m), bit))
                m = m << 1 | bit
                offs &= mbit if bit else ~mbit
            st = lit_state(state)
        else:
            b.append((("is_match", state, ps), 1))
            b.append((("is_rep", state), 0 if kind == "match" else 1))
            if kind == "match":
                b += lens("match_", len, ps)
                s = slot(dist)
                b += tree(("slots", min(len - 2, 3)), 6, s)
                if s >= 4:
                    n = (s >> 1) - 1
                    low = dist - first(s)
                    if s < 14:
                        b += rtree(("special", s), n, low)
                    else:
                        b += [(("direct",), low >> 4 >> i & 1) for i in reversed(range(n - 4))]
                        b += rtree(("align",), 4, low & 15)
                r = [dist] + r[:3]
                st = 7 if state < 7 else 10
            elif kind == "short" or rep == 0:
                b.append((("is_rep0", state), 0))
                b.append((("is_rep0_long", state, ps), 0 if kind == "short" else 1))
            else:
                b.append((("is_rep0", state), 1))
                b.append((("is_rep1", state), 0 if rep == 1 else 1))
                if rep > 1:
                    b.append((("is_rep2", state), rep - 2))
                r = [r[rep]] + r[:rep] + r[rep + 1:]
            if kind == "short":
                st = 9 if state < 7 else 11
            elif kind == "rep":
                b += lens("rep_", len, ps)
                st = 8 if state < 7 else 11
        self.bits, self.after, self.reps_after = b, st, r

    def __str__(self):
        d = {"lit": "literal %d (before it %d, match byte %d)" % (self.byte, self.prev, self.match), "match": "match of distance %d, length %d" % (self.dist, self.len),
             "short": "short rep", "rep": "rep %d of length %d" % (self.rep, self.len)}[self.kind]
        return "%s in state %d at position %d (lc %d, lp %d, pb %d)" % (d, self.state, self.pos, self.lc, self.lp, self.pb)


def symbols(enc):
    for s in range(12):
        for k in ("lit", "match", "short"):
            yield Sym(k, s, byte=0x5A, match=0x53, prev=0xC7, pos=5, dist=300, len=7)
        for r in range(4):
            yield Sym("rep", s, rep=r, len=9, pos=3)
    for n in range(2, 274):
        yield Sym("match", 0, dist=77, len=n, pos=n)
        yield Sym("rep", 8, rep=n % 4, len=n, pos=n)
    for s in range(64):
        n = max((s >> 1) - 1, 0) if s >= 4 else 0
        for low in sorted({0, 1, (1 << n) - 1, (1 << n) // 2, 0xA5A5A5A5 & ((1 << n) - 1), 1 << n >> 1 | 9}):
            d = first(s) + low
            if low < 1 << n and (d < 2**31 - 4 or not enc):
                yield Sym("match", 3, dist=d, len=2 + s % 5, pos=s)
    for x in range(256):
        yield Sym("lit", x % 7, byte=x, prev=255 - x, pos=x, lc=x % 5, lp=x % 4 if x % 5 + x % 4 <= 4 else 0, pb=x % 5)
        yield Sym("lit", 7 + x % 5, byte=x, match=x, prev=x, pos=x)
    for x in (0, 0x5A, 0xA5, 0xFF, 0x3C):
        for i in range(8):
            for t in (0, 0xFF, 0x96):
                m = (x ^ 1 << i) & ~((1 << i) - 1) & 0xFF | t & ((1 << i) - 1)
                yield Sym("lit", 10, byte=x, match=m, prev=1, pos=i)
    for pb in range(5):
        for pos in (0, 1, 15, 16, 0x123456, 7):
            yield Sym("short", 2, pos=pos, pb=pb)
            yield Sym("rep", 4, rep=0, len=3, pos=pos, pb=pb)
            yield Sym("match", 4, dist=5, len=12, pos=pos, pb=pb)
            yield Sym("match", 4, dist=5, len=4, pos=pos, pb=pb)
            yield Sym("lit", 1, byte=9, prev=200, pos=pos, pb=pb, lc=0, lp=pb)
            yield Sym("lit", 9, byte=9, match=0x19, prev=200, pos=pos, pb=pb, lc=4 - pb, lp=pb)


# ---- tables ----------------------------------------------------------------

def lengths(P, name):
    """lengths of an array field, outermost first"""
    found = set()
    for k, a in P.adts.items():
        if k.startswith("lzma_rust"):
            for v in a["variants"]:
                for f in v["fields"]:
                    if f["name"] == name and f["ty"].startswith("["):
                        out, t = [], f["ty"]
                        while t.startswith("["):
                            t, n = t[1:-1].rsplit(";", 1)
                            n = n.strip()
                            out.append(int(re.sub(r"_?[iu]\w+$", "", n)) if n[0].isdigit() else const(P, n))
                            t = t.strip()
                        found.add(tuple(out))
    return found.pop() if len(found) == 1 else None


def const(P, n):
    vs = {v for k, v in P.consts.items() if k.startswith("lzma_rust") and k.split("::")[-1] == n.split("::")[-1]}
    return vs.pop() if len(vs) == 1 else None


class Tables:
    """which table of the code stands for which table of the format"""

    def __init__(self, P):
        self.P, self.fwd, self.back = P, {}, {}

    def size(self, pl):
        """number of entries of the table a place denotes"""
        if pl and isinstance(pl[-1], tuple):
            return None if None in pl[-1] else pl[-1][1] - pl[-1][0]
        n = 0
        while n < len(pl) and isinstance(pl[-1 - n], int):
            n += 1
        ls = lengths(self.P, pl[-1 - n])
        return ls[n] if ls and n < len(ls) else None

    def same(self, pl, want):
        """the place the code uses is the one the format prescribes"""
        if None in pl:
            return False
        w = (want[0],) + tuple(x for x in want[1:])
        if any(isinstance(x, tuple) for x in pl):      # a part of a table
            i = [j for j, x in enumerate(pl) if isinstance(x, tuple)][0]
            lo, hi = pl[i]
            if None in (lo, hi) or i + 2 != len(pl) or pl[-1] != want[-1] or want[0] != "special" or hi - lo < 1 << max((want[1] >> 1) - 1, 0):
                return False
            pl, w = pl[:i] + (lo,), ("special", want[1])
            return self.match(pl, w)
        ints = tuple(x for x in pl if isinstance(x, int))
        if ints != want[1:]:
            return False
        return self.match(tuple(x for x in pl if not isinstance(x, int)), (want[0],))

    def match(self, a, b):
        return self.fwd.setdefault(a, b) == b and self.back.setdefault(b, a) == a


# ---- symbols ---------------------------------------------------------------

def bind(env, base, s, reps="reps"):
    """the model of a coder (the term of its LZMACoder)"""
    env[field(field(field(base, "state"), "state"), "state")] = s.state
    env[field(field(base, "state"), "state")] = s.state
    for i, r in enumerate(s.reps):
        env[elem(field(base, "reps"), C(i))] = r
    env[field(base, "pos_mask")] = (1 << s.pb) - 1


def lit(env, base, s):
    env[field(base, "lc")] = s.lc
    env[field(base, "literal_pos_mask")] = (1 << s.lp) - 1


def model_after(p, env, root, path, s):
    """problem with the model at the end, or None"""
    st = value(p.load(root, path + (("f", "state"), ("f", "state"))), env)
    if st != s.after:
        return "leaves the model in state %s, not %d" % (st, s.after)
    rp = p.load(root, path + (("f", "reps"),))
    rs = [element(rp, i, env) for i in range(4)]
    if [None if x is None else x & M32 for x in rs] != s.reps_after:
        return "leaves the repeat distances %s, not %s (before: %s)" % (rs, s.reps_after, list(s.reps))
    return None


def decoder(rule, P):
    key = find(rule, P, "lzma_rust::decoder::LZMADecoder", "decode")
    if key is None:
        return
    op = names(P, DEC, ("decode_bit", "decode_bit_tree", "decode_reverse_bit_tree", "decode_direct_bits", "normalize"))
    op |= names(P, "lz_decoder::LZDecoder", ("get_pos", "has_space", "repeat", "repeat_pending", "get_byte", "put_byte"))
    S = System(P, key, op, rule, max_paths=20000)
    T = Tables(P)
    self = mk("d", mk("p", S.param(0)))
    for s in symbols(False):
        env = {}
        bind(env, field(self, "coder"), s)
        lit(env, field(field(self, "literal_decoder"), "coder"), s)
        msg = decode_one(P, S, T, s, env)
        if msg:
            rule.bad("decode:" + s.kind, at(P, key), "%s: the decoder %s" % (s, msg))
            return
        rule.ok("symbol decoded", s.kind)


def decode_one(P, S, T, s, env):
    bits, done = list(s.bits), []
    bad = []
    spaces = [1, 0]
    level = [True]       # the last bit was followed by a normalisation

    def take(pl):
        if not bits:
            bad.append("asks for a bit more than there are")
            return 0
        want, b = bits.pop(0)
        if pl == ("direct",) if want == ("direct",) else pl == ("direct",) or not T.same(pl, want):
            if want == ("direct",) and pl == ("direct",):
                return b
            bad.append("takes bit %d of the symbol from %s, where the format has %s" % (len(s.bits) - len(bits), show(pl), show(want)))
        return b

    def oracle(e, env):
        n = last(e)
        if n == "normalize":
            level[0] = True
        elif n.startswith("decode_"):
            level[0] = False
        if n == "decode_bit":
            return take(place(e.args[1], env) or ("?",))
        if n in ("decode_bit_tree", "decode_reverse_bit_tree"):
            pl = place(e.args[1], env) or ("?",)
            size = T.size(pl)
            if not size or size & (size - 1):
                bad.append("reads a bit tree from a table of unknown size")
                return 0
            m = 1
            v = 0
            for i in range(size.bit_length() - 1):
                b = take(pl + (m,))
                m = m << 1 | b
                v = v << 1 | b if n == "decode_bit_tree" else v | b << i
            return v
        if n == "decode_direct_bits":
            v = 0
            for _ in range(value(e.vals[1], env) or 0):
                if not bits or bits[0][0] != ("direct",):
                    bad.append("reads direct bits where the format has modelled ones")
                    return 0
                v = v << 1 | bits.pop(0)[1]
            return v
        if n == "has_space":
            return spaces.pop(0) if spaces else 0
        if n == "get_pos":
            return s.pos
        if n == "get_byte":
            d = value(e.vals[1], env)
            if d not in (0, s.reps[0]):
                bad.append("looks at the byte at distance %s" % d)
            return s.prev if d == 0 else s.match
        if n in ("put_byte", "repeat"):
            done.append((n,) + tuple(value(v, env) for v in e.vals[1:]))
        return 0
    try:
        p, env = S.run(env, oracle)
    except Stuck as e:
        return bad[0] if bad else str(e)
    if bad:
        return bad[0]
    if bits:
        return "leaves %d bits of the symbol unread" % len(bits)
    if p.kind != "return" or not went_well(p, env):
        return "fails"
    if not level[0]:
        return "does not bring the range up to scale after its last bit: the byte that ends a chunk is left unread"
    want = ("put_byte", s.byte) if s.kind == "lit" else ("repeat", s.reps_after[0], 1 if s.kind == "short" else s.len)
    got = [d[:1] + tuple(None if x is None else x & M32 for x in d[1:]) for d in done]
    if got != [want]:
        return "does %s, not %s" % (got, want)
    return model_after(p, env, mk("D", mk("p", S.param(0))), (("f", "coder"),), s)


def show(pl):
    return ".".join(str(x) for x in pl if x != "self")


def written(T, bits, bad, e, env):
    """bits an encoder call writes -> appended to bits"""
    n = last(e)
    if n == "encode_bit":
        pl = place(e.args[1], env)
        b = value(e.vals[3], env)
        i = value(e.vals[2], env)
        if pl is None or i is None or b is None:
            bad.append("writes an undetermined bit")
        else:
            bits.append((pl + (i,), int(b != 0)))
        return True
    if n in ("encode_bit_tree", "encode_reverse_bit_tree"):
        pl, v = place(e.args[1], env), value(e.vals[2], env)
        size = T.size(pl) if pl else None
        if not size or size & (size - 1) or v is None:
            bad.append("writes an undetermined bit tree")
        elif v >= size and n == "encode_reverse_bit_tree":
            bad.append("writes the symbol %d to a bit tree of %d" % (v, size))
        else:
            bits.extend((tree if n == "encode_bit_tree" else rtree)(pl, size.bit_length() - 1, v))
        return True
    if n == "encode_direct_bits":
        v, k = value(e.vals[1], env), value(e.vals[2], env)
        if v is None or not k or not 0 < k < 32:
            bad.append("writes an undetermined number of direct bits (%s)" % k)
        else:
            bits.extend((("direct",), v >> i & 1) for i in reversed(range(k)))
        return True
    return False


def compare(T, bits, s):
    for i, ((pl, b), (want, w)) in enumerate(zip(bits, s.bits)):
        if (pl == ("direct",)) != (want == ("direct",)) or pl != ("direct",) and not T.same(pl, want):
            return "writes bit %d of the symbol with %s, where the format has %s" % (i + 1, show(pl), show(want))
        if b != w:
            return "writes %d as bit %d of the symbol (%s), where the format has %d" % (b, i + 1, show(want), w)
    if len(bits) != len(s.bits):
        return "writes %d bits, where the format has %d" % (len(bits), len(s.bits))
    return None


def encoder(rule, P):
    own = "lzma_rust::enc::encoder::LZMAEncoder"
    op = names(P, ENC, ("encode_bit", "encode_bit_tree", "encode_reverse_bit_tree", "encode_direct_bits"))
    op |= names(P, "lz_encoder::LZEncoder", ("get_pos", "get_match_len2", "has_enough_data", "get_byte_backward", "skip", "find_matches"))
    op |= names(P, own, ("skip", "find_matches"))
    T = Tables(P)
    for name in ("encode_symbol", "encode_init", "encode_lzma1_end_marker"):
        key = find(rule, P, own, name)
        if key is None:
            continue
        S = System(P, key, op, rule, max_paths=20000)
        if name == "encode_symbol":
            todo = symbols(True)
        elif name == "encode_init":
            todo = [Sym("lit", 0, reps=(0, 0, 0, 0), byte=b, prev=0, pos=0, lc=3, lp=1) for b in range(256)]
        else:
            todo = [Sym("match", st, dist=M32, len=2, pos=5 + st) for st in range(12)]
        for s in todo:
            for ra in ((0, 3) if name == "encode_symbol" and s.kind == "lit" and s.pos == 5 else (1,) if name != "encode_init" else (0,)):
                msg = encode_one(P, S, T, s, ra, name)
                if msg:
                    rule.bad("encode:" + ("end" if "end" in name else s.kind), at(P, key), "%s: the encoder %s" % (s, msg))
                    return
            rule.ok("symbol encoded", s.kind if "end" not in name else "end marker")


def encode_one(P, S, T, s, ra, name):
    root = mk("D", mk("p", S.param(0)))
    env, bits, bad = {}, [], []
    back = -1 if s.kind == "lit" else s.dist + 4 if s.kind == "match" else s.rep
    n = 1 if s.kind in ("lit", "short") else s.len

    def model(base):
        bind(env0, field(base, "coder"), s)
        lit(env0, field(field(base, "literal_encoder"), "coder"), s)
        d = field(base, "data")
        env0[field(d, "read_ahead")] = ra
        env0[field(d, "back")] = back
        env0[field(d, "uncompressed_size")] = 0 if name == "encode_init" else 1000
        for k in ("match_len_encoder", "rep_len_encoder"):
            for i in range(16):
                env0[elem(field(field(base, k), "counters"), C(i))] = 5
    env0 = env
    model(mk("d", mk("p", S.param(0))))
    if name == "encode_init":
        env[field(field(mk("d", mk("p", S.param(0))), "data"), "read_ahead")] = -1

    def oracle(e, env):
        nonlocal env0
        if written(T, bits, bad, e, env):
            return 0
        k = last(e)
        env0 = env
        for i, a in enumerate(e.args):
            if a.op == "r" and a.a[0] and a.a[1] is root and not a.a[2]:
                model(mk("out", e.ret, i, root, ()))
        if k == "get_next_symbol":
            return n
        if k == "has_enough_data":
            return 1
        if k == "get_pos":
            return s.pos + ra
        if k == "get_match_len2":
            d = value(e.vals[2], env)
            if d is None or d & M32 != s.reps_after[0] & M32:
                bad.append("compares the match with distance %s" % d)
            return value(e.vals[3], env)
        if k == "get_byte_backward":
            d = value(e.vals[1], env)
            want = {ra: s.byte, ra + 1: s.prev}
            if s.state >= 7:
                want[ra + 1 + s.reps[0]] = s.match
            if d not in want:
                bad.append("looks at the byte %s back (read ahead %d, last distance %d)" % (d, ra, s.reps[0]))
                return 0
            return want[d]
        return 0
    try:
        p, env = S.run(env, oracle)
    except Stuck as e:
        return bad[0] if bad else compare(T, bits, s) or str(e)
    m = bad[0] if bad else compare(T, bits, s)
    if m:
        return m
    if p.kind != "return" or not went_well(p, env):
        return "fails"
    m = model_after(p, env, root, (("f", "coder"),), s)
    if m or name == "encode_lzma1_end_marker":
        return m
    r = value(p.load(root, (("f", "data"), ("f", "read_ahead"))), env)
    u = value(p.load(root, (("f", "data"), ("f", "uncompressed_size"))), env)
    if r != ra - n:
        return "goes %s bytes ahead after a symbol of %d bytes, not %d" % (r, n, ra - n)
    if u != (n if name == "encode_init" else 1000 + n):
        return "counts %s bytes for a symbol of %d" % (None if u is None else u - (0 if name == "encode_init" else 1000), n)
    return None


# ---- bit trees -------------------------------------------------------------

def trees(rule, P):
    for side, owner, pre in (("decoder", DEC, "decode"), ("encoder", ENC, "encode")):
        for rev in (False, True):
            name = pre + ("_reverse" if rev else "") + "_bit_tree"
            key = find(rule, P, owner, name)
            if key is None:
                continue
            S = System(P, key, names(P, owner, (pre + "_bit",)), rule)
            for k in (1, 2, 3, 4, 5, 6, 8):
                for sym in range(1 << k):
                    msg = one_tree(S, pre, rev, k, sym)
                    if msg:
                        rule.bad("tree:" + name, at(P, key), "symbol %d of a tree of %d: %s %s" % (sym, 1 << k, name, msg))
                        break
                    rule.ok("tree", name)
                else:
                    continue
                break


def one_tree(S, pre, rev, k, sym):
    pr = S.param(1)
    want = (rtree if rev else tree)((pr,), k, sym)
    env = {length(mk("d", mk("p", pr))): 1 << k}
    if pre == "encode":
        env[mk("p", S.param(2))] = sym
    got = []

    def oracle(e, env):
        if last(e) != pre + "_bit":
            return 0
        pl = place(e.args[1], env) or ("?",)
        if pre == "decode":
            b = want[len(got)][1] if len(got) < len(want) else 0
            got.append((pl, b))
            return b
        b = value(e.vals[3], env)
        got.append((pl + (value(e.vals[2], env),), None if b is None else int(b != 0)))
        return 0
    try:
        p, env = S.run(env, oracle)
    except Stuck as e:
        return str(e)
    if got != want:
        return "uses the bits %s, not %s" % (["%s:%s" % (x[-1], b) for x, b in got], ["%s:%s" % (x[-1], b) for x, b in want])
    if p.kind != "return" or not went_well(p, env):
        return "fails"
    if pre == "decode":
        v = value(field(vfield(p.ret, "Ok"), "0"), env)
        if v != sym:
            return "yields %s" % v
    return None


# ---- range coder -----------------------------------------------------------

RANGES = (0x01000000, 0x01000001, 0x02345678, 0x7FFFFFFF, 0x80000000, 0xDEADBEEF, 0xFFFFFFFF)
SMALL = (0x00FFFFFF, 0x00010000, 0x00ABCDEF)
PROBS = (31, 32, 33, 63, 64, 500, 1000, 1024, 1025, 1984, 1985, 2016, 2017)


class RC:
    def __init__(self, low=0, rng=M32, cache=0, size=1):
        self.low, self.range, self.cache, self.size, self.out = low, rng, cache, size, []

    def shift(self):
        if self.low < 0xFF000000 or self.low >> 32:
            c = self.low >> 32
            self.out.append(self.cache + c & 0xFF)
            self.out += [0xFF + c & 0xFF] * (self.size - 1)
            self.size = 0
            self.cache = self.low >> 24 & 0xFF
        self.size += 1
        self.low = (self.low & 0xFFFFFF) << 8

    def norm(self):
        if self.range < 1 << 24:
            self.range = self.range << 8 & M32
            self.shift()

    def bit(self, p, b):
        bound = (self.range >> 11) * p
        if b:
            self.low += bound
            self.range -= bound
            p -= p >> 5
        else:
            self.range = bound
            p += (2048 - p) >> 5
        self.norm()
        return p

    def direct(self, v, n):
        for i in reversed(range(n)):
            self.range >>= 1
            if v >> i & 1:
                self.low += self.range
            self.norm()


def sink(out):
    def oracle(e, env):
        n = last(e)
        if n == "write_u8":
            out.append(value(e.vals[1], env))
        elif n in ("write_all", "write"):
            ln = value(length(e.vals[1]), env)
            out.extend([element(e.vals[1], i, env) for i in range(ln)] if ln is not None else [None])
            return ln
        return 0
    return oracle


def rc_env(S, rc):
    b = mk("d", mk("p", S.param(0)))
    return {field(b, "low"): rc.low, field(b, "range"): rc.range, field(b, "cache"): rc.cache, field(b, "cache_size"): rc.size}


def rc_after(S, p, env, rc, out):
    if p.kind != "return" or p.variant_of(p.ret) not in ("Ok", None):
        return "fails"
    if out != rc.out:
        return "writes %s, not %s" % (out, rc.out)
    root = mk("D", mk("p", S.param(0)))
    for n, v in (("low", rc.low), ("range", rc.range), ("cache", rc.cache), ("cache_size", rc.size)):
        x = value(p.load(root, (("f", n),)), env)
        if x != v:
            return "leaves %s = %s, not %s" % (n, x, v)
    return None


def lows():
    for low in (0, 0x00FFFFFF, 0x12345678, 0xFEFFFFFF, 0xFF000000, 0xFFFFFFFF):
        for cache, size in ((0, 1), (0xFF, 1), (0x7F, 2), (0xFE, 4)):
            yield low, cache, size


def primitives(rule, P):
    key = find(rule, P, ENC, "encode_bit")
    if key:
        S = System(P, key, (), rule)
        pr = mk("d", mk("p", S.param(1)))
        for low, cache, size in lows():
            for rng in RANGES:
                for i, prob in enumerate(PROBS):
                    if (i + rng + low + cache) % 3 and rng not in (0x01000000, M32):
                        continue
                    for b in (0, 1, 4):
                        rc = RC(low, rng, cache, size)
                        env = rc_env(S, rc)
                        env.update({elem(pr, C(7)): prob, mk("p", S.param(2)): 7, mk("p", S.param(3)): b, length(pr): 64})
                        out = []
                        after = rc.bit(prob, b)
                        try:
                            p, env = S.run(env, sink(out))
                            msg = rc_after(S, p, env, rc, out)
                            x = element(p.load(mk("D", mk("p", S.param(1))), ()), 7, env)
                            if not msg and x != after:
                                msg = "leaves the probability %s, not %s" % (x, after)
                        except Stuck as e:
                            msg = str(e)
                        if msg:
                            rule.bad("bit:encode", at(P, key), "bit %d with probability %d, range %#x, low %#x, cache %#x (%d bytes): encode_bit %s" % (b, prob, rng, low, cache, size, msg))
                            break
                        rule.ok("bit", "encode_bit")
                    else:
                        continue
                    break
                else:
                    continue
                break
            else:
                continue
            break
    key = find(rule, P, ENC, "encode_direct_bits")
    if key:
        S = System(P, key, (), rule)
        for low, cache, size in lows():
            for rng in RANGES[::2]:
                for v, n in ((0, 1), (1, 1), (0x2A5, 10), (0x3FFFFFF, 26), (0x1555555, 26)):
                    rc = RC(low, rng, cache, size)
                    env = rc_env(S, rc)
                    env.update({mk("p", S.param(1)): v, mk("p", S.param(2)): n})
                    out = []
                    rc.direct(v, n)
                    try:
                        p, env = S.run(env, sink(out))
                        msg = rc_after(S, p, env, rc, out)
                    except Stuck as e:
                        msg = str(e)
                    if msg:
                        rule.bad("bit:direct", at(P, key), "%d direct bits of %#x with range %#x, low %#x: encode_direct_bits %s" % (n, v, rng, low, msg))
                        return
                    rule.ok("bit", "encode_direct_bits")
    key = find(rule, P, ENC, "finish")
    if key:
        S = System(P, key, (), rule)
        for low, cache, size in lows():
            rc = RC(low, RANGES[3], cache, size)
            env = rc_env(S, rc)
            out = []
            for _ in range(5):
                rc.shift()
            try:
                p, env = S.run(env, sink(out))
                msg = rc_after(S, p, env, rc, out)
            except Stuck as e:
                msg = str(e)
            if msg:
                rule.bad("bit:finish", at(P, key), "finishing with low %#x, cache %#x: finish %s" % (low, cache, msg))
                break
            rule.ok("bit", "finish")
    decode_primitives(rule, P)


def rd_env(S, rng, code):
    b = mk("d", mk("p", S.param(0)))
    return {field(b, "range"): rng, field(b, "code"): code}


def decode_primitives(rule, P):
    def feed(byte, n):
        def oracle(e, env):
            if last(e) in ("next_byte", "read_u8"):
                n.append(1)
                return byte
            return 0
        return oracle
    key = find(rule, P, DEC, "decode_bit")
    if key:
        S = System(P, key, (), rule)
        root = mk("D", mk("p", S.param(0)))
        pt = mk("d", mk("p", S.param(1)))
        for rng in RANGES + SMALL:
            for prob in PROBS:
                r1 = rng if rng >= 1 << 24 else rng << 8
                bound = (r1 >> 11) * prob
                for code1 in {0, bound - 1, bound, r1 - 1}:
                    byte = code1 & 0xFF
                    code = code1 if r1 == rng else code1 >> 8
                    b = int(code1 >= bound)
                    want = (b, r1 - bound if b else bound, code1 - bound if b else code1, prob - (prob >> 5) if b else prob + ((2048 - prob) >> 5), int(r1 != rng))
                    env = rd_env(S, rng, code)
                    env[pt] = prob
                    n = []
                    try:
                        p, env = S.run(env, feed(byte, n))
                        got = (value(field(vfield(p.ret, "Ok"), "0"), env), value(p.load(root, (("f", "range"),)), env), value(p.load(root, (("f", "code"),)), env),
                               value(p.load(mk("D", mk("p", S.param(1))), ()), env), len(n))
                    except Stuck as e:
                        got = str(e)
                    if got != want:
                        rule.bad("bit:decode", at(P, key), "range %#x, code %#x, probability %d: decode_bit gives (bit, range, code, probability, bytes read) %s, not %s" % (rng, code, prob, got, want))
                        return
                    rule.ok("bit", "decode_bit")
    key = find(rule, P, DEC, "decode_direct_bits")
    if key:
        S = System(P, key, (), rule)
        root = mk("D", mk("p", S.param(0)))
        for rng in RANGES + SMALL:
            for cfrac in (0, 1, 2, 3):
                for cnt in (0, 1, 5, 26):
                    code = {0: 0, 1: rng - 1, 2: rng // 2, 3: rng // 3}[cfrac]
                    r, c, v, k = rng, code, 0, 0
                    for _ in range(cnt):
                        if r < 1 << 24:
                            r, c, k = r << 8, c << 8 | 0x5A, k + 1
                        r >>= 1
                        b = int(c >= r)
                        c -= r * b
                        v = v << 1 | b
                        if c >= r:        # no encoder writes this
                            break
                    if c >= r:
                        continue
                    env = rd_env(S, rng, code)
                    env[mk("p", S.param(1))] = cnt
                    n = []
                    try:
                        p, env = S.run(env, feed(0x5A, n))
                        got = (value(field(vfield(p.ret, "Ok"), "0"), env), value(p.load(root, (("f", "range"),)), env), value(p.load(root, (("f", "code"),)), env), len(n))
                    except Stuck as e:
                        got = str(e)
                    if got != (v, r, c, k):
                        rule.bad("bit:decode-direct", at(P, key), "%d direct bits with range %#x, code %#x: decode_direct_bits gives (value, range, code, bytes read) %s, not %s" % (cnt, rng, code, got, (v, r, c, k)))
                        return
                    rule.ok("bit", "decode_direct_bits")


# ---- where coding starts ---------------------------------------------------

def constructors(rule, P):
    """lc, lp and pb reach the masks they are for"""
    for owner, key in (("decoder", find(rule, P, "lzma_rust::decoder::LZMADecoder", "new")), ("encoder", find(rule, P, "lzma_rust::enc::encoder::LZMAEncoder", "new"))):
        if key is None:
            continue
        b = P.bodies[key]
        ps = [b.locals[1 + i][1] for i in range(b.argc)]
        if not {"lc", "lp", "pb"} <= set(ps):
            rule.bad("new:" + owner, at(P, key), "its parameters are not lc, lp and pb")
            continue
        from sa import flow
        e = flow.Engine(P, opaque=names(P, "lz_encoder::LZEncoder", ("new", "new_hc4", "new_bt4")), max_paths=20000)
        paths = [p for p in e.run(key) if p.kind == "return"]
        rule.ran(e, paths, key)
        for p in paths:
            r = p.ret
            if r.op == "a" and r.a[0] == "tuple":
                r = r.a[3][0]
            cell = {"literal_decoder" if owner == "decoder" else "literal_encoder": ("lc", "literal_pos_mask")}
            for lc, lp, pb in ((0, 0, 0), (3, 0, 2), (0, 4, 1), (4, 0, 3), (1, 3, 4), (2, 1, 0)):
                env = {mk("p", "lc"): lc, mk("p", "lp"): lp, mk("p", "pb"): pb}
                lit = field(field(r, "literal_" + owner), "coder")
                got = [value(inner(lit, "lc"), env), value(inner(lit, "literal_pos_mask"), env), value(inner(field(r, "coder"), "pos_mask"), env)]
                if got != [lc, (1 << lp) - 1, (1 << pb) - 1]:
                    rule.bad("new:" + owner, at(P, key), "lc %d, lp %d, pb %d: literal context bits, literal position mask and position mask are %s" % (lc, lp, pb, got))
                    break
            else:
                rule.ok("start", owner)


def inner(t, name):
    """a field of a value a method may have worked on: the value it had before where the method is known to keep it"""
    return field(t, name)


def starts(rule, P):
    key = find(rule, P, ENC, "reset")
    if key:
        S = System(P, key, (), rule)
        env = rc_env(S, RC(5, 6, 7, 8))
        p, env = S.run(env, lambda e, env: 0)
        m = rc_after(S, p, env, RC(), [])
        if m:
            rule.bad("start:encoder", at(P, key), "reset %s" % m)
        else:
            rule.ok("start", "reset")
    key = find(rule, P, DEC, "new_stream")
    if key:
        S = System(P, key, (), rule)
        for b in (0, 1, 0xFF):
            reads = []

            def oracle(e, env):
                reads.append(last(e))
                return b if len(reads) == 1 else 0x12345678
            p, env = S.run({}, oracle)
            okp = p.variant_of(p.ret) == "Ok"
            v = field(vfield(p.ret, "Ok"), "0")
            got = (value(field(v, "range"), env), value(field(v, "code"), env)) if okp else None
            if (got != (M32, 0x12345678) or reads[:2] != ["next_byte", "next_u32"]) if b == 0 else okp:
                rule.bad("start:decoder", at(P, key), "after a first byte of %d the decoder starts with (range, code) %s" % (b, got))
            else:
                rule.ok("start", "new_stream")
    key = find(rule, P, DEC, "prepare")
    if key:
        S = System(P, key, (), rule)
        root = mk("D", mk("p", S.param(0)))
        for n in (4, 5, 6, 100):
            for b in (0, 1):
                seq = []

                def oracle(e, env):
                    k = last(e)
                    if k == "read_u8":
                        seq.append(k)
                        return b
                    if k == "read_u32":
                        seq.append(k + ("" if "BigEndian" in str(e.callee) else "?"))
                        return 0x12345678
                    if k == "read_exact":
                        pl = place(e.args[1], env)
                        lo, hi = value(length(e.vals[1]), env), None
                        seq.append((k, pl[-1] if pl else None))
                    return 0
                env = {mk("p", S.param(2)): n, length(field(field(mk("d", mk("p", S.param(0))), "inner"), "buf")): 1000}
                try:
                    p, env = S.run(env, oracle)
                except Stuck as e:
                    rule.bad("start:prepare", at(P, key), "prepare with %d bytes: %s" % (n, e))
                    return
                okp = p.variant_of(p.ret) == "Ok" or p.ret.op == "call"
                if n < 5 or b:
                    good = not okp
                else:
                    got = [value(p.load(root, q), env) for q in ((("f", "range"),), (("f", "code"),), (("f", "inner"), ("f", "pos")))]
                    good = okp and got == [M32, 0x12345678, 1000 - (n - 5)] and seq == ["read_u8", "read_u32", ("read_exact", (1000 - (n - 5), 1000))]
                if not good:
                    rule.bad("start:prepare", at(P, key), "a chunk of %d bytes whose first is %d: %s" % (n, b, seq))
                    return
                rule.ok("start", "prepare")
