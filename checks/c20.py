"""Sizes and offsets that the format stores in 64 bits keep all their bits."""
from sa.terms import *
from sa import flow, arith
from sa.prov import *
from sa.evalt import value, element
from sa.steps import System, Stuck, went_well
from checks.c34 import last, at
from checks.c17 import sink

TECHNIQUE = "evaluation of the extracted number coders, width analysis of every narrowing operation (abstract interpretation of MIR)"
RULE = """Numbers: the transition systems of the header's number reader and writer are extracted (path summaries) and followed for every
value at which the encoding changes (0, 1, every 2^k-1, 2^k, 2^k+1, and mixed bit patterns): the writer emits exactly the bytes of 7z's
number encoding and the reader of those bytes returns the value again; the same for every length of encoding with all bits set. The size field of a .lzma stream header is written and read with all its eight bytes. Width: in every function of sevenz_rust
outside the BCJ and BCJ2 filters (whose positions are 32-bit by definition) and of the LZMA/LZMA2 stream readers and writers, on every path, a 64-bit quantity
is cast to a narrower type only where the facts of the path show that it fits; it is not masked or reduced to fewer bits by a constant that keeps
16 bits or more, nor computed with wrapping operators; a failing narrowing conversion does not become a default value; counts
of bytes are not accumulated in types of fewer than 64 bits."""
NOTE = RULE + """ Exempt: CRC-32 values, the length bytes of method ids and properties (whose lengths C19 evaluates), the bytes handed to the LZMA encoder's window
and the LZMA2 chunk (bounded by the window and the chunk limits; C34), the delta filter's ring index. On targets with a 32-bit usize the conversions to usize would narrow; the analysis is of the 64-bit target."""
LEVEL = "other"

WIDE = {"u64", "usize", "u128", "i64", "isize", "i128"}
BITS = {"u8": 8, "i8": 8, "u16": 16, "i16": 16, "u32": 32, "i32": 32, "u64": 64, "i64": 64, "usize": 64, "isize": 64, "u128": 128, "i128": 128}
STREAMS = ("::LZMAReader", "::LZMA2Reader", "::LZMAWriter", "::LZMA2Writer", "::CountingWriter")


def check(rule, P):
    for f in (numbers, lzma_header, widths):
        f(rule, P)
    rule.floor("number", 200)
    rule.floor("function", 60)


# ---- 7z's number encoding ------------------------------------------------------

def encode(v):
    for n in range(8):
        if v < 1 << 7 * (n + 1):
            return [(0xff00 >> n) & 0xff | v >> 8 * n] + [v >> 8 * i & 0xff for i in range(n)]
    return [0xff] + [v >> 8 * i & 0xff for i in range(8)]


def values():
    s = {0, 1, 0x0123456789abcdef, 0xfedcba9876543210, 0xa5a5a5a5a5, 0x8000000080000000, 0x100000000 + 77, 0x180000001}
    for k in range(1, 65):
        s |= {x for x in ((1 << k) - 1, 1 << k, (1 << k) + 1, (1 << k) - 0x81) if 0 <= x < 1 << 64}
    return sorted(s)


def feed(S, data, used):
    outs = {}
    seen = {}
    for p in S.paths:
        for t in list(p.facts) + [v for r, v in p.store.items()] + ([p.ret] if p.ret is not None else []) + [v for x in p.ev for v in (x.vals or ())]:
            subterms(t, seen)
    for s in seen:
        if s.op == "oute":
            outs.setdefault(s.a[1], set()).add(s)

    def oracle(e, env):
        n = last(e)
        take = {"read_u8": 1, "read_u16": 2, "read_u32": 4, "read_u64": 8}.get(n)
        if take:
            b = data[used[0]:used[0] + take]
            used[0] += take
            big = any("BigEndian" in str(x) for x in (e.callee or {}).get("args", ()))
            return int.from_bytes(bytes(b), "big" if big else "little") if len(b) == take else None
        if n in ("read_exact", "read"):
            k = value(length(e.vals[1]), env)
            if k is None:
                raise Stuck("a read of unknown length")
            for o in outs.get(e.ret, ()):
                for i in range(k):
                    env[elem(o, C(i))] = data[used[0] + i] if used[0] + i < len(data) else 0
            used[0] += k
            return k
        return 0
    return oracle


def number(k, what=("write_u64", "read_u64")):
    return k.startswith("sevenz_rust::") and k.split("::")[-1] in what and "#" not in k and k.count("::") == 2


def number_fns(P, what):
    return [k for k in P.bodies if number(k, (what,))]


def numbers(rule, P):
    for name, f in (("read_u64", reading), ("write_u64", writing)):
        ks = number_fns(P, name)
        if len(ks) != 1:
            rule.bad("missing:" + name, "src", "the number coder %s was not found" % name)
            continue
        try:
            f(rule, P, ks[0])
        except (Stuck, flow.Limit) as e:
            rule.bad("undecided:" + name, at(P, ks[0]), "%s: %s" % (name, e))


def reading(rule, P, key):
    S = System(P, key, (), rule)
    for v in values():
        data, used = encode(v), [0]
        p, env = S.run({}, feed(S, data, used))
        if p.kind != "return" or not went_well(p, env):
            rule.bad("read_u64", at(P, key), "the number %#x, encoded as %s, is not accepted (%s)" % (v, bytes(data).hex(), p.kind))
            return
        g = value(field(vfield(p.ret, "Ok"), "0"), env)
        if g is None:
            raise Stuck("the value of %s is not determined" % bytes(data).hex())
        if g != v or used[0] != len(data):
            rule.bad("read_u64", at(P, key), "the number %#x, encoded as %s, is read as %#x from %d bytes" % (v, bytes(data).hex(), g, used[0]))
            return
        rule.ok("number", "read %#x" % v)


def writing(rule, P, key):
    S = System(P, key, (), rule)
    for v in values():
        out = []
        p, env = S.run({mk("p", S.param(1)): v}, sink(out))
        if p.kind != "return" or p.variant_of(p.ret) == "Err":
            rule.bad("write_u64", at(P, key), "the number %#x cannot be written (%s)" % (v, p.kind))
            return
        if None in out:
            raise Stuck("the bytes of %#x are not determined" % v)
        if out != encode(v):
            rule.bad("write_u64", at(P, key), "the number %#x is written as %s, not %s" % (v, bytes(x & 255 for x in out).hex(), bytes(encode(v)).hex()))
            return
        rule.ok("number", "write %#x" % v)


# ---- the size in the header of a .lzma stream ------------------------------------------

def lzma_header(rule, P):
    for what, f in (("LZMAWriter", header_out), ("LZMAReader", header_in)):
        ks = [k for k in P.bodies if "::%s::<" % what in k and k.split("::")[-1] in ("new", "new_mem_limit") and "#" not in k and "{" not in k]
        ks = [k for k in ks if k.endswith("new") == (what == "LZMAWriter")]
        if len(ks) != 1:
            rule.bad("missing:" + what, "lzma-rust/src", "the function of %s that handles the stream header was not found" % what)
            continue
        try:
            f(rule, P, ks[0])
        except (Stuck, flow.Limit) as e:
            rule.bad("undecided:" + what, at(P, ks[0]), "stream header: %s" % e)


def header_out(rule, P, key):
    sinks = {k for k in P.bodies if "CountingWriter" in k or "::LZMAEncoder::new" in k or "set_preset_dict" in k or "RangeEncoder" in k}
    S = System(P, key, sinks, rule)
    par = [mk("p", S.param(i)) for i in range(5)]
    for v in [None] + [x for x in values() if x < (1 << 64) - 1]:
        out = []
        env = {par[2]: 1, par[3]: 0, mk("variant", par[4]): "None" if v is None else "Some", field(mk("d", par[1]), "dict_size"): 0x12345678,
               mk("variant", field(mk("d", par[1]), "preset_dict")): "None"}
        if v is not None:
            env[field(vfield(par[4], "Some"), "0")] = v
        p, env = S.run(env, sink(out))
        want = list(((1 << 64) - 1 if v is None else v).to_bytes(8, "little"))
        if p.kind != "return" or p.variant_of(p.ret) == "Err" or out[1:5] != [0x78, 0x56, 0x34, 0x12] or out[5:] != want:
            rule.bad("lzma-header", at(P, key), "the stream header for the size %s is %s" % (v, out[1:]))
            return
        rule.ok("number", "lzma header %s" % v)


def header_in(rule, P, key):
    inner = {k for k in P.bodies if "LZMAReader" in k and k != key} | {k for k in P.bodies if k.split("::")[-1].startswith("get_mem")}
    S = System(P, key, inner, rule)
    par = [mk("p", S.param(i)) for i in range(P.bodies[key].argc)]
    for v in values():
        got, used = [], [0]
        o = feed(S, [93] + [0, 0, 16, 0] + list(v.to_bytes(8, "little")), used)

        def oracle(e, env):
            if last(e).startswith("construct"):
                got.append([value(x, env) for x in e.vals])
                return 0
            if last(e).startswith("get_mem"):
                return 100
            return o(e, env)
        env = {x: 1 << 31 for x in par[1:]}
        for x in par[1:]:
            env[mk("variant", x)] = "None"
        p, env = S.run(env, oracle)
        if not got or v not in got[0] or used[0] != 13:
            rule.bad("lzma-header", at(P, key), "the size %#x of the stream header reaches the decoder as %s" % (v, got))
            return
        rule.ok("number", "lzma header in %#x" % v)


# ---- widths ----------------------------------------------------------------------

def in_scope(k):
    if "#" in k or "{" in k.split("::")[-1]:
        return False
    if "sevenz_rust::" in k.split(" as ")[0]:
        return "::bcj" not in k and "fmt::" not in k and "::wasm" not in k
    return any(s in k for s in STREAMS) and "fmt::" not in k


def widths(rule, P):
    ops = {k for k in P.bodies if "{closure" not in k}
    callers = {}
    for a, b in P.bodies.items():
        for blk in b.blocks:
            if blk["t"][0] == "call" and isinstance(blk["t"][1], dict) and blk["t"][1].get("id") in P.by_id:
                callers.setdefault(P.by_id[blk["t"][1]["id"]]["key"], set()).add(a)
    skip = set()        # the number coders and what only they call: evaluated above
    while True:
        more = {k for k in P.bodies if k not in skip and (number(k) or callers.get(k) and callers[k] <= skip)}
        if not more:
            break
        skip |= more
    for k in sorted(P.bodies):
        if not in_scope(k) or k in skip:
            continue
        b = P.bodies[k]
        if not suspicious(P, b):
            rule.ok("function", k)
            continue
        try:
            eng = flow.Engine(P, opaque=ops - {k}, max_paths=20000)
            ps = eng.run(k)
        except flow.Limit as e:
            rule.bad("undecided:" + k, at(P, k), str(e))
            continue
        rule.ran(eng, ps, k)
        judge(rule, P, k, ps)
        for i, blk in enumerate(b.blocks):
            t = blk["t"]
            if t[0] == "call" and isinstance(t[1], dict) and t[1].get("fn", "").split("::")[-1] in ("unwrap_or", "unwrap_or_default", "unwrap_or_else", "map_or", "map_or_else") \
                    and any("TryFromIntError" in str(x) for x in t[1].get("args", ())) and BITS.get(str(t[1]["args"][0]), 64) < 64:
                rule.bad("default:" + k, "%s in %s" % (b.line(i), k), "where a number does not fit into %s, another value is used in its place" % t[1]["args"][0])
        rule.ok("function", k)


def suspicious(P, b, seen=None):
    """does the body (or a closure in it) contain an operation of interest"""
    found = []

    def f(x):
        if isinstance(x, (list, tuple)):
            if len(x) >= 5 and x[0] == "cast" and x[1] == "IntToInt" and BITS.get(x[3], 0) >= 64 > BITS.get(x[4], 64):
                found.append(x)
            if len(x) >= 2 and x[0] == "bin" and x[1] in ("BitAnd", "Rem"):
                found.append(x)
            for y in x:
                f(y)
    for blk in b.blocks:
        f(blk["s"])
        t = blk["t"]
        if t[0] == "assert" and t[3] in ("overflow:Add", "overflow:Mul", "overflow:Shl"):
            found.append(t)
        if t[0] == "call" and isinstance(t[1], dict):
            n = t[1].get("fn", "")
            if "wrapping_" in n or "overflowing_" in n or "unchecked_" in n or "try_from" in n or "try_into" in n:
                found.append(t)
    if any("{closure" in str(blk["s"]) for blk in b.blocks):
        found.append("closure")
    return found


def judge(rule, P, k, ps):
    said = set()

    def bad(e, text):
        w = e if isinstance(e, str) else e.where
        if (w, text) not in said:
            said.add((w, text))
            rule.bad("%s:%s" % (k, text[:40]), "%s in %s" % (w, k), text)
    for p in ps:
        done = set()
        for e in p.ev:
            if e.kind == "cast" and e.x[0] in WIDE and BITS.get(e.x[1], 64) < 64:
                t = e.args[0]
                if exempt(P, k, t):
                    rule.ok("exempt", "%s %s" % (e.where, pp(t)[:60]))
                elif not e.x[2]:
                    bad(e, "the 64-bit value %s is cast to %s without a check that it fits" % (pp(t)[:120], e.x[1]))
                else:
                    rule.ok("cast", "%s %s -> %s" % (e.where, e.x[0], e.x[1]))
            if e.kind == "assert" and e.name in ("overflow:Add", "overflow:Mul"):
                total(P, k, p, e, bad, rule)
            if e.kind == "call":
                wrapping(k, p, e, bad)
            if e.kind in ("call", "loop"):
                for v in list(e.vals or ()) + [h[3] for h in e.havoc]:
                    masks(k, p, e.nf, v, e.where, bad, done, rule)
        if p.kind in ("return", "loop"):
            vs = [v for r, v in p.store.items() if r.op != "L"] + ([p.ret] if p.kind == "return" and p.ret is not None else [])
            for v in vs:
                masks(k, p, len(p.facts), v, at(P, k), bad, done, rule)
        if p.kind == "return" and p.variant_of(p.ret) != "Err" and (p.ret is None or p.variant_of(p.ret) != "None"):
            dropped(P, k, p, bad, rule)


def exempt(P, k, t):
    """values that are no size: checksums, lengths of ids and properties, bytes of the window"""
    u = uncast(t)
    names = {x.a[0].split("::")[-1] for x in subs(u) if x.op == "call"}
    if "LZMA2Writer" in k and names & {"fill_window", "finish_buffer"}:
        return True
    if is_crc(u):
        return True
    return u.op == "len" and bool(names & {"id", "get_options_as_properties"})


def subs(t):
    d = {}
    subterms(t, d)
    return list(d)


def is_crc(t):
    while t.op in ("band", "cast"):
        t = [x for x in t.a if isinstance(x, T) and x.op != "c"][0]
    if t.op == "f" and "crc" in t.a[1]:
        return True
    return t.op == "call" and ("crc" in t.a[0] or "finalize" in t.a[0])


def wide(t):
    return tyof.get(t) in WIDE or t.op in ("len", "lin") and all(tyof.get(x, "usize") in WIDE for x, _ in (t.a[1] if t.op == "lin" else ()))


def low_ones(c):
    return c > 0 and c & (c + 1) == 0 and 16 <= c.bit_length() < 64


def masks(k, p, nf, v, where, bad, done, rule):
    """reductions of a 64-bit value to its low bits that reach a call, a stored value or the result"""
    for s in subs(v):
        if s in done:
            continue
        done.add(s)
        x = m = None
        if s.op == "band":
            a, b = s.a[0], s.a[1]
            if a.op == "c":
                a, b = b, a
            if b.op == "c" and low_ones(b.a[0]):
                x, m = a, b.a[0]
        elif s.op == "rem" and s.a[1].op == "c" and low_ones(s.a[1].a[0] - 1):
            x, m = s.a[0], s.a[1].a[0] - 1
        elif s.op == "lin":
            for y, c in s.a[1]:
                if y.op == "div" and y.a[1].op == "c" and c == -y.a[1].a[0] and low_ones(y.a[1].a[0] - 1):
                    x, m = y.a[0], y.a[1].a[0] - 1
        elif s.op == "shr" and s.a[0].op == "shl" and s.a[0].a[1] is s.a[1] and s.a[1].op == "c" and 0 < s.a[1].a[0] <= 48:
            x, m = s.a[0].a[0], (1 << 64 - s.a[1].a[0]) - 1
        if x is None or not wide(x) or is_crc(x):
            continue
        if arith.entails(p.facts[:nf], le(x, C(m))):
            rule.ok("mask", where)
        else:
            bad(where, "the 64-bit value %s is reduced to its low %d bits" % (pp(x)[:120], m.bit_length()))


def wrapping(k, p, e, bad):
    n = last(e)
    if not (n.startswith("wrapping_") or n.startswith("overflowing_")) or n.endswith(("_shl", "_shr", "_neg")):
        return
    ty = (e.callee or {}).get("self") or (e.argtys[0] if e.argtys else "")
    if ty not in WIDE and "::" + "u64" not in str((e.callee or {}).get("fn", "")) and "usize" not in str((e.callee or {}).get("fn", "")):
        return
    if "delta" in k or any(v.op == "c" for v in e.vals or ()) and "sub" in n and False:
        return
    bad(e, "%s on 64-bit values: the result is reduced modulo 2^64" % n)


# the numbers of a header that nothing bounds
HEADER = {"pack_pos", "pack_sizes", "unpack_sizes", "pack_stream_offsets", "next_header_offset", "next_header_size"}
RESULTS = {"read_u64", "read_u64le", "get_unpack_size", "get_unpack_size_at_index", "get_unpack_size_for_coder"}


def unbounded(p, nf, t):
    for x in subs(t):
        b = x
        while b.op in ("f", "v", "e", "d"):
            if b.op == "f" and b.a[1] in HEADER and x.op == "e":
                break
            b = b.a[0]
        hit = b.op == "f" and x.op == "e" or x.op == "f" and x.a[1] in HEADER - {"pack_sizes", "unpack_sizes", "pack_stream_offsets"} \
            or x.op == "f" and x.a[1] == "0" and x.a[0].op == "v" and x.a[0].a[0].op == "call" and x.a[0].a[0].a[0].split("::")[-1] in RESULTS \
            or x.op == "call" and x.a[0].split("::")[-1] in RESULTS - {"read_u64", "read_u64le"}
        if hit and linear(t, x) and not arith.entails(p.facts[:nf], le(x, C(1 << 33))):
            return x
    return None


def linear(t, x):
    return t is x or t.op == "lin" and any(y is x for y, _ in t.a[1])


def total(P, k, p, e, bad, rule):
    if e.x[1] not in WIDE:
        if "LZMA2Writer" in k:
            return
        for a in e.args:
            if any(x.op == "f" and x.a[1] == "0" and x.a[0].op == "v" and x.a[0].a[0].op == "call" and x.a[0].a[0].a[0].split("::")[-1] in ("read", "write", "fill_window")
                   for x in subs(a)) and not e.x[0]:
                bad(e, "the byte count %s is added up in a type of fewer than 64 bits" % pp(a)[:100])
        return
    if e.x[0]:
        rule.ok("sum", e.where)
        return
    for a in e.args:
        x = unbounded(p, e.nf, a)
        if x is not None:
            bad(e, "the sum or product with the header's %s can exceed 64 bits and is not checked" % pp(x)[:100])
            return
    rule.ok("sum", e.where)


def dropped(P, k, p, bad, rule):
    """a narrowing conversion fails, its operand is no longer used, and the function succeeds"""
    for i, e in enumerate(p.ev):
        if e.kind != "narrow" or BITS.get(e.x[0], 0) < 64 or BITS.get(e.x[1], 64) >= 64 or exempt(P, k, e.args[0]):
            continue
        after = set()
        for v in [v for x in p.ev[i + 1:] for v in list(x.vals or ()) + [h[3] for h in x.havoc]] + [v for r, v in p.store.items() if r.op != "L"] + [p.ret]:
            if v is not None:
                after |= set(subs(v))
        if e.args[0] in after:
            rule.ok("narrow", e.where)
        else:
            bad(e, "when %s does not fit into %s, something else is used in its place" % (pp(e.args[0])[:100], e.x[1]))
