"""Features the reader does not support are rejected, never skipped."""
from sa.terms import *
from sa import flow
from sa.prov import *
from checks.hgram import *
from checks.c25 import fieldpath

TECHNIQUE = "grammar-acceptance analysis over all successful paths (abstract interpretation of MIR)"
RULE = """Every successful path of a header section reader consumes only identifiers it is built for: each single byte read as an
identifier, terminator or external flag is known to equal one of the section's constants, an identifier is followed by the
reader of its record, and the last one is the end marker (read_header: 2,4,5,0, never 3; read_streams_info: 6,7,8,0;
read_pack_info: 9,10,0; read_unpack_info: 11,12,10,0 with external 0; read_sub_streams_info: 13,9,10,0). A coder record is
accepted only with the alternative-methods bit clear. A file property is either one of the supported ones (with external
byte 0 where the format has one) or skipped by exactly its size, and the supported ones and kStartPos are never skipped.
Archive properties are skipped by their size. The header proper starts with identifier 1, an encoded one with 23. A decoder is
built only for a block whose coders were all found to have one input and one output, or whose main coder is a BCJ2 coder with
4 inputs and 1 output while all others have one of each."""
NOTE = RULE + " The primitives read_u8, read_u64, ... are decided by C08; the graph of coders (cycles, missing streams) by C02 and C19."

SECTIONS = {
    # function: {identifier: what reads its record}
    "read_header": {2: "read_archive_properties", 4: "read_streams_info", 5: "read_files_info", 0: None},
    "read_streams_info": {6: "read_pack_info", 7: "read_unpack_info", 8: "read_sub_streams_info", 0: None},
    "read_pack_info": {9: ("loop",), 10: ("read_all_or_bits",), 0: None},
    "read_unpack_info": {11: ("read_usize",), 12: ("loop",), 10: ("read_all_or_bits",), 0: None},
    "read_sub_streams_info": {13: ("loop",), 9: ("loop",), 10: ("read_all_or_bits",), 0: None},
}
EXTERNAL = ("read_unpack_info",)


def check(rule, P):
    for fn, ids in SECTIONS.items():
        section(rule, P, fn, ids)
    properties(rule, P)
    folder(rule, P)
    files(rule, P)
    top(rule, P)
    decoders(rule, P)


def section(rule, P, fn, ids):
    key = one(rule, P, fn)
    if not key:
        return
    ps = run(rule, P, key)
    root = header_root(P, key)
    where = "%s (%s)" % (key, P.bodies[key].file())
    for p in oks(ps):
        ts = tokens(p, root)
        last = None
        for n, t in enumerate(ts):
            if t.name == "read_u8":
                c = const_of(p, t.value, ids)
                last = c
                if c is None:
                    rule.bad("%s:id" % fn, t.where, "%s succeeds with a byte read here that is not known to be one of the supported values %s" % (fn, sorted(ids)))
                    continue
                rule.ok("identifiers", "%s: %d" % (fn, c))
                h = ids[c]
                nx = next((t.name for t in ts[n + 1:] if t.name != "loop" or live(ps, p, root, t)), "the end")
                if h and nx not in ((h,) if isinstance(h, str) else h):
                    rule.bad("%s:%d" % (fn, c), t.where, "record %d is accepted by %s but what follows is %s, not %s" % (c, fn, nx, h))
            elif t.name not in ("loop", "read_u64", "read_usize", "read_all_or_bits") and t.name not in ids.values():
                rule.bad("%s:skip" % fn, t.where, "%s takes bytes from the header by %s, which is no part of the section" % (fn, t.name))
        if last != 0:
            rule.bad("%s:end" % fn, where, "%s succeeds without having read the end marker last (%s)" % (fn, ts))
        rule.ok("section-paths", fn)
    for p in ps:
        if p.kind != "loop":
            continue
        for t in tokens(p, root):
            if t.name in ("seek", "read_u8") and t.i > loop_at(p):
                rule.bad("%s:skip" % fn, t.where, "%s inside a loop of %s skips or reads an unchecked byte" % (t.name, fn))
    rule.floor("identifiers", 10)


def loop_at(q):
    lp = q.x["loop"]
    return max([i for i, e in enumerate(q.ev) if e.kind == "loop" and e.x == lp] or [0])


def properties(rule, P):
    """kArchiveProperties: (id, size, bytes)* end"""
    key = one(rule, P, "read_archive_properties")
    if not key:
        return
    ps = run(rule, P, key)
    root = header_root(P, key)
    for p in ps:
        if p.kind == "loop" or p in oks(ps):
            skip(rule, P, p, tokens(p, root, loop_at(p) if p.kind == "loop" else 0), "read_archive_properties")
    rule.floor("skips", 1)


def skip(rule, P, p, ts, fn):
    """every seek goes forward by exactly a size that was read"""
    if impossible(rule, P, p, ts):
        return
    for n, t in enumerate(ts):
        if t.name == "seek":
            v = t.vals[1]
            sz = [s for s in ts[:n] if s.name in ("read_usize", "read_u64")]
            ok = variant(v) == "Current" and sz and same_number(p, field(v, "0"), sz[-1].value)
            if not ok:
                rule.bad("%s:seek" % fn, t.where, "%s moves in the header by %s, which is not the size of the record" % (fn, pp(v)))
            else:
                rule.ok("skips", fn)
        elif t.name not in ("read_usize", "read_u64", "read_u8", "loop"):
            rule.bad("%s:skip" % fn, t.where, "%s takes bytes by %s" % (fn, t.name))


def same_number(p, a, b):
    a, b = uncast(a), uncast(b)
    if a is b or p.entails(eqi(a, b)):
        return True
    return False


def impossible(rule, P, p, sizes):
    """the path needs a size that the reader of sizes never gives"""
    return any(not p.copy().assume(le(t.value, C(small_size(rule, P)))) for t in sizes if t.name == "read_usize")


_limit = {}


def small_size(rule, P):
    """largest number read_usize is known to give"""
    if P not in _limit:
        key = one(rule, P, "read_usize")
        lim = (1 << 64) - 1
        if key:
            ps = run(rule, P, key)
            for n in (31, 32, 62, 63):
                if all(p.entails(le(field(vfield(p.ret, "Ok"), "0"), C((1 << n) - 1))) for p in oks(ps)):
                    lim = (1 << n) - 1
                    break
        _limit[P] = lim
    return _limit[P]


def folder(rule, P):
    key = one(rule, P, "read_folder")
    if not key:
        return
    ps = run(rule, P, key)
    root = header_root(P, key)
    seen = 0
    for q in ps:
        if q.kind != "loop":
            continue
        ts = tokens(q, root, loop_at(q) + 1)
        for t in ts:
            if t.name == "read_u8":
                seen += 1
                live = [b for b in range(256) if b & 0x80 and possible(q, t.value, b)]
                if live:
                    rule.bad("read_folder:alternative", t.where, "a coder record with flags 0x%02x (alternative methods) is accepted" % live[0])
                else:
                    rule.ok("coder-flags", "alternative methods refuted")
            elif t.name not in ("read_exact", "read_u64", "read_usize", "loop"):
                rule.bad("read_folder:skip", t.where, "read_folder takes bytes by %s" % t.name)
    rule.floor("coder-flags", 1)


def possible(q, t, v):
    """is t == v compatible with what q knows of t? (evaluated where the facts are about t alone)"""
    from sa import evalt
    env = {t: v}
    for f in q.facts:
        if not any(s is t for s in subterms(f)):
            continue
        try:
            r = evalt.holds(f, env)
        except Exception:
            r = None
        if r is False:
            return False
    c = q.copy()
    return bool(c.assume(eqi(t, C(v))))


NAMED = {0x0E: 0, 0x0F: 0, 0x10: 0, 0x11: 1, 0x12: 1, 0x13: 1, 0x14: 1, 0x15: 1}   # has an external byte
FIRST = {0x0E: ("read_bits",), 0x0F: ("read_bits",), 0x10: ("read_bits",), 0x11: ("read_u8",), 0x12: ("read_all_or_bits",),
         0x13: ("read_all_or_bits",), 0x14: ("read_all_or_bits",), 0x15: ("read_all_or_bits",)}
NEVER_SKIPPED = sorted(NAMED) + [0x18]


def files_iterations(ps, root):
    """[(path, id value, tokens after id, loop token)] for each iteration of the property loop"""
    for q in ps:
        if q.kind != "loop":
            continue
        ts = tokens(q, root, loop_at(q) + 1)
        if len(ts) >= 2 and ts[0].name == "read_u8" and ts[1].name in ("read_u64", "read_usize"):
            yield q, ts[0].value, ts[1:]
        elif len(ts) >= 2 and ts[0].name in ("read_u64", "read_usize") and ts[-1].name == "read_u8" and loop_at(q):
            ev = q.ev[loop_at(q)]
            for r, path, lv, old in ev.havoc:
                if lv.op == "lv" and q.load(r, path) is ts[-1].value:
                    yield q, lv, ts[:-1]


def files(rule, P):
    key = one(rule, P, "read_files_info")
    if not key:
        return
    ps = run(rule, P, key)
    root = header_root(P, key)
    where = "%s (%s)" % (key, P.bodies[key].file())
    seen = set()
    for q, idv, ts in files_iterations(ps, root):
        c = const_of(q, idv, range(0, 0x1A))
        size = ts[0]
        if any(t.name == "seek" for t in ts) or len(ts) == 1:
            skip(rule, P, q, ts, "read_files_info")
            if len(ts) == 1:
                rule.bad("files:nothing", size.where, "a file property is accepted without reading or skipping its bytes")
            live = [b for b in NEVER_SKIPPED if possible(q, idv, b)]
            if live:
                rule.bad("files:skipped:%d" % live[0], where, "file property 0x%02x may be skipped as if it were padding" % live[0])
            else:
                rule.ok("file-properties", "skip")
            continue
        if c not in NAMED:
            live = [b for b in range(256) if possible(q, idv, b)]
            if c == 0x18 or 0x18 in live:
                rule.bad("files:start-pos", where, "kStartPos records are accepted")
            elif c is None:
                rule.bad("files:id", where, "a file property that is none of the supported ones is read by %s" % ts[1].name)
            continue
        if ts[1].name not in FIRST[c]:
            rule.bad("files:%d" % c, ts[1].where, "file property 0x%02x is read by %s" % (c, ts[1].name))
        u8 = [t for t in ts[1:] if t.name == "read_u8"]
        if NAMED[c]:
            if len(u8) != 1 or const_of(q, u8[0].value, (0,)) is None:
                rule.bad("files:external:%d" % c, (u8 or ts)[0].where, "file property 0x%02x is accepted with an external byte that is not known to be 0" % c)
        for t in ts[1:]:
            if t.name not in ("read_u8", "read_bits", "read_all_or_bits", "loop", "into_iter", "read_exact"):
                rule.bad("files:skip:%d" % c, t.where, "file property 0x%02x takes bytes by %s" % (c, t.name))
        seen.add(c)
        rule.ok("file-properties", "0x%02x" % c)
    rule.floor("file-properties", 8)
    for p in oks(ps):
        ts = tokens(p, root)
        loops = [n for n, t in enumerate(ts) if t.name == "loop"]
        if not loops:
            rule.bad("files:loop", where, "the file properties are not read in a loop")
            continue
        rest = [t for t in ts if t.name == "read_u8"]
        end = False
        for t in rest:
            end = end or const_of(p, t.value, (0,)) is not None
        for e in [e for e in p.ev if e.kind == "loop"]:
            for r, path, lv, old in e.havoc:
                end = end or lv.op == "lv" and tyof.get(lv) in ("u8", None) and p.entails(eqi(lv, ZERO))
        if not end:
            rule.bad("files:end", where, "read_files_info succeeds without having read the end marker")
        rule.ok("section-paths", "read_files_info")


def top(rule, P):
    key = one(rule, P, "init_archive")
    if not key:
        return
    ps = run(rule, P, key)
    where = "%s (%s)" % (key, P.bodies[key].file())
    n = 0
    for p in oks(ps):
        seq = []
        for e in p.ev:
            if e.kind == "call" and e.name.split("::")[-1] in ("read_u8", "read_header", "read_encoded_header"):
                nm = e.name.split("::")[-1]
                seq.append(("u8", const_of(p, field(vfield(e.ret, "Ok"), "0"), (1, 0x17))) if nm == "read_u8" else (nm, None))
        if seq not in ([("u8", 1), ("read_header", None)], [("u8", 0x17), ("read_encoded_header", None), ("u8", 1), ("read_header", None)]):
            rule.bad("top", where, "an archive is opened after %s: a plain header must start with 1 and an encoded one with 23" % seq)
        else:
            n += 1
            rule.ok("top", "%d tokens" % len(seq))
    rule.floor("top", 2)


ADD = "add_decoder"


def simple(p, coder, rest=()):
    a = p.entails(eqi(field(coder, "num_in_streams"), ONE))
    b = p.entails(eqi(field(coder, "num_out_streams"), ONE))
    return a and b


def all_simple(ps, p, main=None):
    """p has seen, before going on, that each coder of the block is 1/1 (or is the main one)"""
    for e, seq, its in scans(ps, p):
        if fieldpath(seq)[:1] != ["coders"] or not its:
            continue
        if all(simple(q, c) or main is not None and (is_main(q, c, main) or is_main(q, c, bcj2_main(q))) for q, c in its):
            return seq
    return None


def is_main(q, c, main):
    return c.op == "e" and main is not None and (c.a[1] is main or q.entails(eqi(c.a[1], main)))


def decoders(rule, P):
    opq = set()
    for n in (ADD, "get_in_stream", "get_in_stream2", "build_decode_stack2"):
        opq |= set(find(P, n))
    for fn in ("build_decode_stack", "read_encoded_header"):
        key = one(rule, P, fn)
        if not key:
            continue
        ps = run(rule, P, key, opq - {key})
        for p in oks(ps):
            if any(e.kind == "call" and e.name.split("::")[-1] == "build_decode_stack2" for e in p.ev):
                continue
            if all_simple(ps, p) is not None or no_coders(p):
                rule.ok("decoders", fn)
            else:
                rule.bad("%s:streams" % fn, "%s (%s)" % (key, P.bodies[key].file()),
                         "%s builds a decoder without having found each coder of the block to have one input and one output" % fn)
    key = one(rule, P, "get_in_stream2")
    if key:
        ps = run(rule, P, key, opq - {key})
        for p in ps:
            for e in p.ev:
                if e.kind == "call" and e.name.split("::")[-1] == ADD:
                    c = e.vals[2]
                    if simple(p, c):
                        rule.ok("decoders", "get_in_stream2")
                    else:
                        rule.bad("get_in_stream2:streams", e.where, "a decoder is added for a coder not known to have one input and one output: %s" % pp(c))
    key = one(rule, P, "build_decode_stack2")
    if key:
        ps = run(rule, P, key, opq - {key})
        where = "%s (%s)" % (key, P.bodies[key].file())
        for p in oks(ps):
            m = bcj2_main(p)
            if m is None:
                rule.bad("bcj2:main", where, "a multi-stream block is decoded as BCJ2 without its main coder being known to be BCJ2 with 4 inputs and 1 output")
            elif all_simple(ps, p, m) is None:
                rule.bad("bcj2:others", where, "a BCJ2 block is decoded although one of its other coders may have several streams")
            else:
                rule.ok("decoders", fn)
    rule.floor("decoders", 5)


def no_coders(p):
    for f in p.facts:
        for s in subterms(f):
            if s.op == "len" and fieldpath(s.a[0])[:1] == ["coders"] and p.entails(eqi(s, ZERO)):
                return True
    return False


def bcj2_main(p):
    """index of the coder that p knows to be BCJ2 with 4 inputs and 1 output"""
    for f in p.facts:
        for s in subterms(f):
            if s.op == "e" and fieldpath(s.a[0])[:1] == ["coders"]:
                if p.entails(eqi(field(s, "num_in_streams"), C(4))) and p.entails(eqi(field(s, "num_out_streams"), ONE)):
                    for g in p.facts:
                        if g.op == "eq" and any(a.op == "b" or True for a in g.a) and any(x is s for x in subterms(g)) and is_bcj2(g):
                            return s.a[1]
    return None


def is_bcj2(g):
    """g: the coder's id compared equal to 03 03 01 1B"""
    return any(bytes_of(a) == [3, 3, 1, 27] for a in g.a)


def bytes_of(t):
    if t.op == "r":
        t = t.a[1] if False else t
    if t.op == "a" and t.a[0] == "array":
        v = [x.a[0] if x.op == "c" and isinstance(x.a[0], int) else None for x in t.a[3]]
        return v
    if t.op == "b":
        return list(t.a[0])
    return None
