"""Every recorded checksum is wired to a verifying reader."""
from sa.terms import *
from sa import flow, mir
from sa.prov import *

TECHNIQUE = "wiring analysis of reader stacks (abstract interpretation of MIR)"
RULE = """On every path of the block decoder to a callback that may get data, the reader given to the callback is, layer by
layer, a bound of exactly the entry's size over the block's stream; unless the path has found the entry's has_crc false,
a verifying reader with the entry's size and CRC is one of the layers; unless it has found the block's has_crc false,
the block's stream is wrapped in a verifying reader with the block's unpacked size and CRC, for single-stream and BCJ2
blocks alike. The same holds for the stream the compressed header is read from, whose decoded length must be the
recorded one. Every decoder that is built anywhere is part of one of the stacks analysed."""
NOTE = RULE + " What the verifying and bounding readers do is decided by C03 and C04."
VERIFIER = "Crc32VerifyingReader"
BOUND = ("BoundedReader",)


def names(P):
    op = {"decoders::add_decoder", "Folder::get_unpack_size", "Folder::get_unpack_size_at_index", "SevenZReader::get_in_stream",
          "SevenZReader::packed_stream"}
    op |= {k for k in P.bodies if k.endswith(("::read_streams_info", "::read_header")) and "Archive>" in k}
    op |= {k for k in P.bodies if "OrderedCoderIter" in k and k.endswith("::next")}
    return op


def struct(t):
    return mir.adt_of(t.a[1]).rsplit("::", 1)[-1] if t.op == "a" and t.a[0] == "adt" else None


def layers(p, t):
    """[(kind, term)] outermost first; the last one is the base"""
    out = []
    for _ in range(40):
        t = uncast(t)
        if t.op == "box":
            t = t.a[0]
        elif t.op == "r":
            v = p.load(t.a[1], t.a[2])
            if v.op == "uninit" or v is t or t.a[1].op == "D":
                break
            t = v
        elif struct(t) == VERIFIER:
            out.append(("crc", t))
            t = field(t, "inner")
        elif struct(t) in BOUND:
            out.append(("bound", t))
            t = field(t, "inner")
        elif cname(t) == "Read::take":
            out.append(("take", t))
            t = t.a[2][0]
        elif cname(t) == "Box::new" or cname(t) == "Box::pin":
            t = t.a[2][0]
        else:
            break
    out.append(("base", t))
    return out


def numbers(t):
    return [x for x in t.a[3] if x.op not in ("box", "r") and cname(x) != "crc32::digest"]


def crc_fields(t):
    """(remaining, expected)"""
    return field(t, "remaining"), field(t, "expected_value")


def same_size(p, r, want):
    return r is want or p.entails(eqi(r, want)) or isc(r, 2**63 - 1) and p.entails(lt(r, want))


def not_true(p, b):
    return decided(p, b) is False


def check(rule, P):
    entries(rule, P)
    header(rule, P)
    rule.floor("entry", 1)
    rule.floor("entry-unverified", 1)
    rule.floor("block", 1)
    rule.floor("header", 1)
    for k in sorted(P.callers().get("sevenz_rust::decoders::add_decoder", ())):
        if k in rule.fns:
            rule.ok("decoder-site", k)
        elif only_through(P, k, "::get_in_stream"):
            rule.ok("bcj2-input", k)
        else:
            rule.bad("other-decoder:" + k, k, "a decoder is built here that none of the analysed reader stacks contains")
    rule.floor("decoder-site", 2)


def only_through(P, k, suffix):
    """every caller chain of k passes a function with this name"""
    cs, st, seen = P.callers(), [k], set()
    while st:
        x = st.pop()
        if x in seen or x.endswith(suffix):
            continue
        seen.add(x)
        if not cs.get(x):
            return False
        st.extend(cs[x])
    return True


def entries(rule, P):
    key = [k for k in P.bodies if "BlockDecoder" in k and k.endswith("::for_each_entries")]
    if len(key) != 1:
        return rule.bad("missing", "-", "BlockDecoder::for_each_entries not found")
    key = key[0]
    e = flow.Engine(P, opaque=names(P), max_paths=20000)
    ps = e.run(key)
    rule.ran(e, ps, key)
    where = "%s (%s)" % (key, P.bodies[key].file())
    cnt = {}
    for p in ps:
        for ev in p.ev:
            if ev.kind != "call" or ev.name != "callback" or len(ev.vals) < 3:
                continue
            ent, rd = ev.vals[1], ev.vals[2]
            if empty_reader(rd):
                if not (p.entails(neg(field(ent, "has_stream"))) or p.entails(eq0(field(ent, "size"))) or p.entails(ge0(scale(field(ent, "size"), -1))) or not_true(p, field(ent, "has_stream"))):
                    rule.bad("empty", ev.where, "an entry that may have data is given an empty reader")
                continue
            ls = layers(p, rd)
            b = ls[-1][1]
            if b.op == "r" and p.load(b.a[1], b.a[2]).op == "uninit":
                continue
            judge(rule, P, p, ev, ent, ls, cnt, where)
    for k, v in cnt.items():
        rule.ok(k, "%d paths" % v)


def judge(rule, P, p, ev, ent, ls, cnt, where):
    def hit(k):
        cnt[k] = cnt.get(k, 0) + 1
    size, crc, has = field(ent, "size"), field(ent, "crc"), field(ent, "has_crc")
    # the entry's own layers are those down to its bound
    bi = [i for i, (k, t) in enumerate(ls) if k in ("bound", "take")]
    if not bi:
        rule.bad("entry-bound", ev.where, "the reader given to the callback is not limited to the entry's size")
        return
    bt = ls[bi[0]][1]
    lim = field(bt, "remain") if ls[bi[0]][0] == "bound" else bt.a[2][1]
    if not same_size(p, lim, size):
        rule.bad("entry-size", ev.where, "the reader given to the callback is limited to %s, not to the entry's size" % pp(lim)[:120])
    def entry_crc(t):
        r, x = crc_fields(t)
        return same_size(p, r, size) and uncast(x) is uncast(crc)
    own = [t for k, t in ls[:bi[0] + 1] if k == "crc"] + [t for k, t in ls[bi[0] + 1:] if k == "crc" and entry_crc(t)]
    for t in [t for k, t in ls[:bi[0]] if k == "crc"]:
        if not entry_crc(t):
            r, x = crc_fields(t)
            rule.bad("entry-crc", ev.where, "the entry's verifying reader expects %s over %s bytes" % (pp(x)[:100], pp(r)[:100]))
    if not own and not not_true(p, has):
        rule.bad("entry-unverified", ev.where, "data of an entry may be delivered without verification although the path has not found has_crc false; facts: %s" % "; ".join(pp(f)[:80] for f in p.facts[-5:]))
    hit("entry" if own else "entry-unverified")
    # the block's stream
    rest = [(k, t) for k, t in ls[bi[0] + 1:] if not (k == "crc" and entry_crc(t))]
    block(rule, P, p, ev, rest, hit)


def block(rule, P, p, ev, rest, hit, what="block"):
    crcs = [t for k, t in rest if k == "crc"]
    if crcs:
        r, x = crc_fields(crcs[0])
        fo = folder_by_size(r, p)
        if fo is None or uncast(x) is not uncast(field(fo, "crc")):
            rule.bad(what + "-crc", ev.where, "the %s's verifying reader expects %s over %s bytes" % (what, pp(x)[:120], pp(r)[:120]))
        elif not of_block(fo, what):
            rule.bad(what + "-crc", ev.where, "the %s's verifying reader uses the record %s" % (what, pp(fo)[:100]))
        hit(what)
        return
    # no verifying reader: has_crc of the block must have been found false
    off = [f for f in p.facts if any(s.op == "f" and s.a[1] == "has_crc" and of_block(s.a[0], what) for s in subterms(f))]
    good = False
    for f in off:
        for s in subterms(f):
            if s.op == "f" and s.a[1] == "has_crc" and of_block(s.a[0], what) and not_true(p, s):
                good = True
    if not good:
        rule.bad(what + "-unverified", ev.where, "the %s's data may be delivered without verification although the path has not found its has_crc false" % what)
    hit(what + "-unverified")


def of_block(fo, what):
    """an element of the archive's list of blocks (the one selected by folder_index for entries)"""
    if fo.op != "e":
        return False
    src = fo.a[0]
    o = origin(src)
    nm = o[1][-1] if o and o[1] else (("f", src.a[1]) if src.op == "f" else None)
    if nm != ("f", "folders"):
        return False
    if what == "block":
        i = fo.a[1]
        return i.op == "f" and i.a[1] == "folder_index" or i.op == "p" and i.a[0] == "folder_index"
    return isc(fo.a[1], 0)


def folder_by_size(r, p):
    def size_calls(t):
        return [s for s in ([t] + list(subterms(t))) if cname(s) == "Folder::get_unpack_size"]
    c = size_calls(r)
    if not c and isc(r, 2**63 - 1):
        for f in p.facts:
            if f.op == "ge0" and p.entails(f):
                k, d = lin(f.a[0])
                for s, co in d.items():
                    if co > 0 and size_calls(s) and p.entails(lt(r, s)):
                        c = size_calls(s)
    elif c and uncast(r) is not c[0]:
        return None
    return c[0].a[2][0] if c else None


def sized(atoms, ret):
    a = [t for t in atoms if cname(uncast(t)) == "Folder::get_unpack_size"]
    b = [t for t in atoms if t is field(vfield(ret, "Ok"), "0") or t.op == "len" and t.a[0].op == "out" and t.a[0].a[0] is ret]
    return bool(a and b)


def header(rule, P):
    key = [k for k in P.bodies if k.endswith("::init_archive") and "Archive>" in k]
    if len(key) != 1:
        return rule.bad("missing", "-", "Archive::init_archive not found")
    key = key[0]
    e = flow.Engine(P, opaque=names(P))
    ps = e.run(key)
    rule.ran(e, ps, key)
    cnt = {}

    def hit(k):
        cnt[k] = cnt.get(k, 0) + 1
    for p in ps:
        si = [i for i, ev in enumerate(p.ev) if ev.kind == "call" and ev.name.endswith("::read_streams_info")]
        if not si:
            continue
        for i, ev in enumerate(p.ev):
            if i < si[0] or ev.kind != "call" or ev.name not in ("Read::read_to_end", "Read::read_exact", "Read::read"):
                continue
            ls = layers(p, ev.vals[0])
            if ls[-1][1].op in ("out", "oute"):
                continue       # reads the already decoded header
            block(rule, P, p, ev, ls, hit, "header")
            if p.kind == "return" and p.variant_of(p.ret) == "Ok":
                got = [f for f in p.facts if f.op == "eq0" and len(lin(f.a[0])[1]) == 2 and lin(f.a[0])[0] == 0 and sized(lin(f.a[0])[1], ev.ret)]
                if not got and ev.name == "Read::read_to_end":
                    rule.bad("header-size", ev.where, "the decoded header is accepted without comparing its length with the recorded one")
            break
    for k, v in cnt.items():
        rule.ok(k, "%d paths" % v)
