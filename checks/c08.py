"""The stream tables the writer emits are those the reader and the 7z format expect."""
from checks import bitset
from sa.terms import *
from sa import flow
from sa.prov import *
from checks.hgram import *
from checks.htab import *

TECHNIQUE = "header grammar extraction from writer and reader (abstract interpretation of MIR), matched against the format"
RULE = """Writer and reader of the stream tables are each reduced to the sequence of tokens (number, byte, 32-bit word, bytes, bit set,
counted loop) of every successful path and compared with one grammar, 7z's: pack info 6, position, count, [9, a number per stream],
[10, digests], 0; unpack info 7, 11, number of folders, external 0, the folders, 12, a number per folder and output stream, [10, digests], 0;
sub-streams 8, [13, a number per folder], [9, all sizes of a folder but the last], [10, digests of what has none yet], 0; a coder record
is a flag byte (length of the id, 0x10 streams given, 0x20 properties), the id, the counts, the properties with their length, then the
bind pairs (inputs, outputs) and the packed streams (all but one bound: the unbound one when there is just one). Digests are
"all defined" or a bit set over the records, then a word for exactly the defined ones. On the reader's side each table is filled by
one loop known to run over all its records in order, each record gets what the read of that round gave, under the condition the
format states; the last size of a folder is its size less the sum of the others; positions in the flat tables are consecutive. On
the writer's side each loop is known to run over the same table whose length is written as the count. The header proper is 1,
[4, streams], 5, files, 0, an encoded one 23 and its stream tables with the position relative to the end of the signature header."""
NOTE = RULE + " Numbers are taken as tokens here; the three coders of bit vectors are followed for vectors of 21 lengths; the lengths of the recorded vectors are decided by C13, the file records by C09."

AR = mk("D", mk("p", "archive"))
F = (("f", "folders"),)


def check(rule, P):
    r_pack(rule, P)
    r_unpack(rule, P)
    r_folder(rule, P)
    r_sub(rule, P)
    w_pack(rule, P)
    w_unpack(rule, P)
    w_sub(rule, P)
    w_folder(rule, P)
    w_top(rule, P)
    bitset.check(rule, P)
    for k, n in (("section-paths", 12), ("rounds", 8), ("tables", 6)):
        rule.floor(k, n)


# ---------------------------------------------------------------- reader

def ids(p, ts, cs):
    """[(position, constant)] of the identifiers read"""
    return [(n, const_of(p, t.value, cs)) for n, t in enumerate(ts) if t.name == "read_u8"]


def one_read(q, root, start, name):
    ts = [t for t in tokens(q, root, start)]
    return ts[0] if len(ts) == 1 and ts[0].name in name else None


def table(rule, key, ps, p, v, hdr, H, reads, what, where, when=None, fresh=False):
    """every record of the table is what one read in the same round gave"""
    err, its = fills(ps, p, v, H, fresh)
    if err:
        rule.bad(key, where, "%s: %s" % (what, err))
        return
    for q, k, s, x in its:
        ts = tokens(q, hdr, s)
        w = when(q, k) if when else True
        if w is None:
            rule.bad(key, where, "%s: a round does not depend on whether the record is present" % what)
        elif w is False:
            if ts:
                rule.bad(key, ts[0].where, "%s: bytes are read for a record that is not present" % what)
        elif len(ts) != 1 or ts[0].name not in reads:
            rule.bad(key, where, "%s: the bytes of one record are read by %s instead of one %s" % (what, ts, "/".join(reads)))
        elif x is None or uncast(x) is not uncast(ts[0].value):
            rule.bad(key, ts[0].where, "%s: record %s gets %s, not what was read" % (what, pp(k), x is not None and pp(x)[:80]))
    rule.ok("tables", "%s: %s" % (key, what))


def present(bits):
    """is record k present according to the bit set?"""
    def f(q, k):
        for g in q.facts:
            b, v = (g.a[0], False) if g.op == "not" else (g, True)
            if b.op in ("ne0", "eq0") and b.a[0].op in ("call", "pure"):
                b, v = b.a[0], v if b.op == "ne0" else not v
            if cname(b) == "BitSet::contains" and same_set(cvals(b)[0], bits) and (cvals(b)[1] is k or q.entails(eqi(cvals(b)[1], k))):
                return v
        return None
    return f


def same_set(a, bits):
    return a is bits


def r_pack(rule, P):
    key = one(rule, P, "read_pack_info")
    if not key:
        return
    ps = run(rule, P, key)
    hdr = header_root(P, key)
    where = "%s (%s)" % (key, P.bodies[key].file())
    for p in oks(ps):
        ts = tokens(p, hdr)
        if len(ts) < 3 or ts[0].name != "read_u64" or ts[1].name not in ("read_usize", "read_u64"):
            rule.bad("read_pack_info:head", where, "the position and the number of packed streams are not read first: %s" % ts[:3])
            continue
        n = ts[1].value
        if uncast(p.load(AR, (("f", "pack_pos"),))) is not ts[0].value:
            rule.bad("read_pack_info:pos", ts[0].where, "pack_pos is %s, not the first number of the record" % pp(p.load(AR, (("f", "pack_pos"),))))
        got = {c: i for i, c in ids(p, ts, (9, 10, 0))}
        if 9 in got:
            table(rule, "read_pack_info:sizes", ps, p, p.load(AR, (("f", "pack_sizes"),)), hdr, n, ("read_u64",), "pack sizes", where)
        if 10 in got:
            bits = digest_bits(rule, "read_pack_info:bits", p, ts, got[10], n)
            if bits is not None:
                if p.load(AR, (("f", "pack_crcs_defined"),)) is not bits:
                    rule.bad("read_pack_info:defined", where, "pack_crcs_defined is not the set that was read")
                table(rule, "read_pack_info:crcs", ps, p, p.load(AR, (("f", "pack_crcs"),)), hdr, n, ("read_u32",), "pack checksums", where, present(bits))
        rule.ok("section-paths", "read_pack_info")


def versions(t, cell):
    """t: what is in the cell after some loop"""
    while t.op == "ue":
        t = t.a[0]
    return t.op in ("lv", "lve") and lvctx(t)[2:] == cell


def digest_bits(rule, key, p, ts, i, n, seq=None):
    """what follows the kCRC identifier: the set of defined digests, for as many records as there are (those in the cell seq)"""
    t = ts[i + 1] if i + 1 < len(ts) else None
    if t is None or t.name != "read_all_or_bits":
        rule.bad(key, t.where if t else ts[i].where, "the checksum identifier is not followed by the set of defined checksums")
        return None
    v = uncast(t.vals[1])
    if not (v is uncast(n) or p.entails(eqi(v, uncast(n))) or seq is not None and v.op == "len" and versions(v.a[0], seq)):
        rule.bad(key, t.where, "the set of defined checksums is read for %s records, there are %s" % (pp(v)[:80], pp(n)[:80]))
    return t.value


def loops_after(p, hdr, i, j):
    """loop tokens between events i and j"""
    return [e for k, e in enumerate(p.ev) if e.kind == "loop" and i < k < j]


def r_unpack(rule, P):
    key = one(rule, P, "read_unpack_info")
    if not key:
        return
    ps = run(rule, P, key)
    hdr = header_root(P, key)
    where = "%s (%s)" % (key, P.bodies[key].file())
    for p in oks(ps):
        ts = tokens(p, hdr)
        seq = ids(p, ts, (11, 0, 12, 10))
        n = next((t for t in ts if t.name in ("read_usize", "read_u64")), None)
        if n is None or not seq or seq[0][1] != 11 or ts.index(n) != seq[0][0] + 1:
            rule.bad("read_unpack_info:head", where, "the folder identifier is not followed by the number of folders")
            continue
        n = n.value
        c12 = [i for i, c in seq if c == 12]
        if len(c12) != 1:
            continue
        lp = [t for t in ts[:c12[0]] if t.kind == "loop"]
        live_ = [t for t in lp if live(ps, p, hdr, t)]
        # folders, in order, one record each
        its = rounds(ps, p, live_[0].ev, n) if len(live_) == 1 else None
        if its is None:
            rule.bad("read_unpack_info:folders", where, "the folder records are not read by one loop over the number of folders")
        else:
            for q, k, s in its:
                t = tokens(q, hdr, s)
                b, sg = chain(q, AR, F)
                if len(t) != 1 or t[0].name != "read_folder" or len(sg) != 1 or sg[0][0] != "one" or sg[0][2] is not t[0].value or sg[0][1] is not None and not q.entails(eqi(sg[0][1], k)):
                    rule.bad("read_unpack_info:folder", live_[0].where, "a round of the folder loop does not store exactly the folder it read")
            rule.ok("tables", "folders")
        # sizes: one number for every output stream of every folder
        nx = min([i for i, c in seq if i > c12[0]] or [len(ts)])
        live_ = [t for t in ts[c12[0]:nx] if t.kind == "loop" and live(ps, p, hdr, t)]
        its = None
        if len(live_) == 1:
            h = [h for h in live_[0].ev.havoc if h[0] is AR and h[1][:1] == F]
            H = length(h[0][3]) if h and h[0][1] == F else n
            its = rounds(ps, p, live_[0].ev, n) or rounds(ps, p, live_[0].ev, H) or all_folders(ps, p, live_[0].ev)
        if its is None:
            rule.bad("read_unpack_info:sizes", where, "the unpacked sizes are not read by one loop over all folders")
        else:
            for q, k, s in its:
                cell = F + (("i", k), ("f", "unpack_sizes"))
                tot = at_start(q, live_[0].ev, AR, F + (("i", k), ("f", "total_output_streams")))
                table(rule, "read_unpack_info:sizes", ps, q, q.load(AR, cell), hdr, tot, ("read_u64",), "unpacked sizes", where, fresh=True)
        if 10 in dict((c, i) for i, c in seq):
            i = [i for i, c in seq if c == 10][0]
            bits = digest_bits(rule, "read_unpack_info:bits", p, ts, i, n, (AR, F))
            le_ = [t for t in ts[i:] if t.kind == "loop" and live(ps, p, hdr, t)]
            its = rounds(ps, p, le_[0].ev, n) or all_folders(ps, p, le_[0].ev) if len(le_) == 1 else None
            if its is None or bits is None:
                rule.bad("read_unpack_info:digests", where, "the checksums are not read by one loop over all folders")
            else:
                for q, k, s in its:
                    w = present(bits)(q, k)
                    t = tokens(q, hdr, s)
                    fo = q.load(AR, F + (("i", k),))
                    if w is None or len(t) != (1 if w else 0) or w and (t[0].name != "read_u32" or uncast(field(fo, "crc")) is not t[0].value):
                        rule.bad("read_unpack_info:crc", where, "a folder's checksum is not the 32 bits read for it, or read when it is not present (%s)" % t)
                    flag = field(fo, "has_crc")
                    if w is not None and not (truth(q, flag) if w else untrue(q, flag)):
                        rule.bad("read_unpack_info:has_crc", where, "has_crc is %s for a folder the checksum of which is %s" % (pp(flag), "present" if w else "absent"))
                rule.ok("tables", "folder checksums")
        rule.ok("section-paths", "read_unpack_info")


def untrue(p, b):
    return b is FALSE or p.entails(eq0(b)) or neg(b) in p.fset


def truth(p, b):
    return b is TRUE or p.entails(b) or p.entails(ne0(b))


def all_folders(ps, p, le):
    """a loop over the sequence archive.folders itself"""
    h = [x for x in le.havoc if x[0] is AR and x[1] == F]
    for e in p.ev:
        if e.kind == "next" and e.name == "done" and seq_of(e) is not None and e.ctx == (le.x[0] if le.x[0] != "it" else e.ctx):
            b = base_of(e.vals[0])
            if b.op == "it" and b.a[0] == "seq" and b.a[1].op == "r" and (b.a[1].a[1], b.a[1].a[2]) == (AR, F):
                its = rounds(ps, p, le, length(seq_of(e)))
                if its is not None:
                    return its
    return None


def r_folder(rule, P):
    key = one(rule, P, "read_folder")
    if not key:
        return
    ps = run(rule, P, key)
    hdr = header_root(P, key)
    where = "%s (%s)" % (key, P.bodies[key].file())
    for p in oks(ps):
        ts = [t for t in tokens(p, hdr) if t.kind != "loop" or live(ps, p, hdr, t)]
        fo = field(vfield(p.ret, "Ok"), "0")
        if not ts or ts[0].name not in ("read_usize", "read_u64"):
            rule.bad("read_folder:head", where, "the number of coders is not read first")
            continue
        n = ts[0].value
        its = rounds(ps, p, ts[1].ev, n) if len(ts) > 1 and ts[1].kind == "loop" else None
        if its is None:
            rule.bad("read_folder:coders", where, "the coders are not read by one loop over their number")
            continue
        if not (length(field(fo, "unpack_sizes")) is ZERO or p.entails(eq0(length(field(fo, "unpack_sizes"))))):
            rule.bad("read_folder:fresh", where, "a folder starts with unpacked sizes that are not its own")
        coders(rule, ps, p, hdr, fo, its, where)
        bind(rule, ps, p, hdr, fo, ts[2:], where)
        rule.ok("section-paths", "read_folder")


def cellof(p, t):
    """(root, path) a table was built in, from its content"""
    while t.op in ("ue", "push"):
        t = t.a[0]
    t, rest = projection(t)
    if t.op in ("lv", "lve"):
        r, pa = lvctx(t)[2:]
        return r, pa + rest
    return None


def coders(rule, ps, p, hdr, fo, its, where):
    cell = cellof(p, field(fo, "coders"))
    tin, tout = uncast(field(fo, "total_input_streams")), uncast(field(fo, "total_output_streams"))
    for q, k, s in its:
        ts = tokens(q, hdr, s)
        if len(ts) < 2 or ts[0].name != "read_u8" or ts[1].name != "read_exact":
            rule.bad("read_folder:coder", where, "a coder record does not begin with its flags and its identifier: %s" % ts)
            continue
        fl = ts[0].value
        b, sg = chain(q, *cell) if cell else (None, [])
        if len(sg) != 1 or sg[0][0] != "one" or sg[0][1] is not None and not q.entails(eqi(sg[0][1], k)):
            rule.bad("read_folder:coders", where, "a round of the coder loop does not store one coder")
            continue
        c = sg[0][2]
        a = ts[1].ev.args[1]
        n = idlen(q, a)
        if n is None or not low4(q, n, fl):
            rule.bad("read_folder:id", ts[1].where, "the identifier of a coder is read with length %s, not the low 4 bits of its flags" % (n is not None and pp(n)[:60]))
        simple, attr = bit(q, fl, 0x10), bit(q, fl, 0x20)
        want = ["read_u8", "read_exact"] + (["read_u64", "read_u64"] if simple is True else []) + (["read_usize", "read_exact"] if attr is True else [])
        have = [t.name for t in ts]
        if simple is None or attr is None or have != want and [x.replace("read_usize", "read_u64") for x in have] != [x.replace("read_usize", "read_u64") for x in want]:
            rule.bad("read_folder:coder", where, "a coder with flag 0x10 %s and 0x20 %s is read as %s, expected %s" % (simple, attr, have, want))
            continue
        i, o = uncast(field(c, "num_in_streams")), uncast(field(c, "num_out_streams"))
        wi, wo = (ts[2].value, ts[3].value) if simple else (ONE, ONE)
        if i is not wi or o is not wo:
            rule.bad("read_folder:streams", where, "the coder gets %s inputs and %s outputs, the record says %s and %s" % (pp(i), pp(o), pp(wi), pp(wo)))
        for what, tot, x in (("input", tin, wi), ("output", tout, wo)):
            d = acc(q, tot)
            if d is None or not (sub(d, x) is ZERO or q.entails(eqi(d, x))):
                rule.bad("read_folder:total-" + what, where, "the total of %s streams grows by %s for a coder with %s" % (what, d is not None and pp(d), pp(x)))
        pr = field(c, "properties")
        if attr:
            ev = ts[-1].ev
            a = ev.args[1]
            if not (pr.op == "out" and pr.a[1] is ev.ret or pr.op in ("out", "oute") and ev.ret in subterms(pr)):
                rule.bad("read_folder:properties", ts[-1].where, "the properties of the coder are %s, not the bytes read" % pp(pr)[:80])
            ln = q.entails(eqi(uncast(length(ev.vals[1])), uncast(ts[-2].value)))
            if not ln:
                rule.bad("read_folder:properties", ts[-1].where, "the properties are read with length %s, not the one recorded" % pp(length(ev.vals[1]))[:80])
        rule.ok("tables", "coders")


def acc(q, tot):
    """what one round adds to the accumulator the total comes from"""
    t = uncast(tot)
    if t.op != "lv":
        return None
    root, path = lvctx(t)[2:]
    return sub(q.load(root, path), t)


def idlen(q, a):
    if a.op == "r":
        if a.a[2] and a.a[2][-1][0] == "sl":
            return sub(a.a[2][-1][2], a.a[2][-1][1])
        return length(q.load(a.a[1], a.a[2]))
    return length(a)


def low4(q, n, fl):
    from sa.bits import bitvec
    a, b = bitvec(uncast(n)), bitvec(uncast(fl))
    return a[:4] == b[:4] and not any(a[4:]) or q.entails(eqi(uncast(n), mk("band", C(15), fl)))


def bit(q, fl, m):
    """is bit m of the flags set on q? None when q does not know"""
    from sa.bits import bitvec
    i = m.bit_length() - 1
    own = bitvec(uncast(fl))[i]
    for f in q.facts:
        g, v = f, True
        if g.op == "not":
            g, v = g.a[0], False
        if g.op in ("eq0", "ne0", "eq", "ne"):
            x = uncast(g.a[0]) if len(g.a) == 1 else None
            if x is None:
                continue
            bv = bitvec(x)
            bits = [(j, b) for j, b in enumerate(bv) if b != 0]
            if len(bits) == 1 and bits[0][1] == own:
                return v if g.op == "ne0" else not v
            # flags & m == m, written as a difference
            if x.op == "lin":
                for c in (m, -m):
                    for y in (add(x, C(c)), sub(C(c), x)):
                        bv = bitvec(uncast(y)) if y.op != "lin" else ()
                        bits = [(j, b) for j, b in enumerate(bv) if b != 0]
                        if len(bits) == 1 and bits[0][1] == own:
                            return (not v) if g.op == "ne0" else v
    return None


def bind(rule, ps, p, hdr, fo, ts, where):
    tin, tout = uncast(field(fo, "total_input_streams")), uncast(field(fo, "total_output_streams"))
    nb = sub(tout, ONE)
    cell = cellof(p, field(fo, "bind_pairs"))
    bt = [t for t in ts if t.kind == "loop"]
    i = 0
    its = rounds(ps, p, bt[0].ev, nb) if bt else None
    if its is None or cell is None:
        if not p.entails(eq0(nb)):
            rule.bad("read_folder:binds", where, "the bind pairs are not read by one loop over the outputs but one")
            return
    else:
        i = 1
        for q, k, s in its:
            t = tokens(q, hdr, s)
            b, sg = chain(q, *cell)
            x = sg[0][2] if len(sg) == 1 and sg[0][0] == "one" and (sg[0][1] is None or q.entails(eqi(sg[0][1], k))) else None
            if len(t) != 2 or any(y.name != "read_u64" and y.name != "read_usize" for y in t) or x is None or uncast(field(x, "in_index")) is not t[0].value or uncast(field(x, "out_index")) is not t[1].value:
                rule.bad("read_folder:bind", where, "a bind pair is not the input index, then the output index")
        rule.ok("tables", "bind pairs")
    npk = sub(tin, nb)
    rest = bt[i:]
    pkd = field(fo, "packed_streams")
    if rest:
        if len(rest) != 1:
            rule.bad("read_folder:packed", where, "the indices of packed streams are not read by one loop")
        else:
            table(rule, "read_folder:packed", ps, p, pkd, hdr, npk, ("read_u64", "read_usize"), "packed stream indices", where)
        if not p.entails(ne0(sub(npk, ONE))):
            rule.bad("read_folder:packed", where, "indices of packed streams are read though there may be only one")
    elif not (p.entails(eqi(npk, ONE)) or p.entails(eq0(npk))):
        rule.bad("read_folder:packed", where, "no index of a packed stream is read though there may be %s of them" % pp(npk)[:80])
    elif p.entails(eqi(npk, ONE)):
        free(rule, ps, p, fo, pkd, tin, where)


def free(rule, ps, p, fo, pkd, tin, where):
    """the only packed stream feeds the input that no bind pair feeds"""
    x = elem(pkd, ZERO)
    for e in reversed(p.ev):
        if e.kind == "call" and e.name.endswith("find_bind_pair_for_in_stream"):
            if p.variant_of(e.ret) == "None" and uncast(x) is uncast(e.vals[1]):
                rule.ok("tables", "free input")
                return
    rule.bad("read_folder:free", where, "the only packed stream is %s, which is not known to be an input without bind pair" % pp(x)[:100])


def r_sub(rule, P):
    key = one(rule, P, "read_sub_streams_info")
    if not key:
        return
    ps = run(rule, P, key)
    hdr = header_root(P, key)
    where = "%s (%s)" % (key, P.bodies[key].file())
    for p in oks(ps):
        ts = [t for t in tokens(p, hdr) if t.kind != "loop" or live(ps, p, hdr, t)]
        seq = [(i, const_of(p, t.value, (13, 9, 10, 0))) for i, t in enumerate(ts) if t.name == "read_u8"]
        got = {c: i for i, c in seq}
        r_nums(rule, ps, p, hdr, ts, got, where)
        v = p.load(AR, (("f", "sub_streams_info"),))
        S = field(vfield(v, "Some"), "0")
        if p.variant_of(v) != "Some":
            rule.bad("read_sub_streams_info:result", where, "no sub-stream information is recorded")
            continue
        r_sizes(rule, ps, p, hdr, S, got, where)
        r_digests(rule, ps, p, hdr, ts, S, got, where)
        rule.ok("section-paths", "read_sub_streams_info")


NUM = "num_unpack_sub_streams"


def r_nums(rule, ps, p, hdr, ts, got, where):
    b, sg = chain(p, AR, F)
    want = length(b)
    last = None
    for s in sg:
        its = rounds(ps, p, s[1], want) if s[0] == "loop" else None
        if its is None:
            rule.bad("read_sub_streams_info:num", where, "the numbers of sub-streams are set by a loop that does not cover all folders")
            return
        for q, k, st in its:
            x = q.load(AR, F + (("i", k), ("f", NUM)))
            t = tokens(q, hdr, st)
            if not t and isc(x, 1):
                kind = "one"
            elif len(t) == 1 and t[0].name in ("read_usize", "read_u64") and uncast(x) is uncast(t[0].value):
                kind = "read"
            else:
                rule.bad("read_sub_streams_info:num", where, "a folder gets %s sub-streams in a round that reads %s" % (pp(x)[:80], t))
                return
            if last is not None and last[0] is s and last[1] != kind:
                kind = "mixed"
            last = (s, kind)
    exp = "read" if 13 in got else "one"
    if last is None or last[1] != exp:
        rule.bad("read_sub_streams_info:num", where, "with kNumUnpackStream %s the numbers of sub-streams are %s" % ("present" if 13 in got else "absent", last and last[1]))
    rule.ok("tables", "sub-stream numbers")


def seg_of(p, t):
    """table content -> (cell, segments) on p"""
    c = cellof(p, t)
    return (None, []) if c is None else (c, chain_of(p, t)[1])


def folders_len(p):
    return length(p.load(AR, F))


def fit(p, its):
    return [(q, k, s) for q, k, s in its if compatible(p, q)]


def r_sizes(rule, ps, p, hdr, S, got, where):
    key = "read_sub_streams_info:sizes"
    t = field(S, "unpack_sizes")
    cell, segs = seg_of(p, t)
    if cell is None or len(segs) != 1 or segs[0][0] != "loop":
        rule.bad(key, where, "the sizes of sub-streams are not stored by one loop over the folders: %s" % pp(t)[:100])
        return
    its = rounds(ps, p, segs[0][1], folders_len(p))
    if its is None:
        rule.bad(key, where, "the loop that stores the sizes of sub-streams does not cover all folders")
        return
    if place(ps, p, segs, ZERO) is None:
        rule.bad(key, where, "the sizes of sub-streams are not stored one after the other")
    for q, k, s in fit(p, its):
        num = q.load(AR, F + (("i", k), ("f", NUM)))
        b, sg = chain(q, *segs[0][2])
        ts = tokens(q, hdr, s)
        if q.entails(eq0(num)):
            if sg or [x for x in ts if x.kind != "loop"]:
                rule.bad(key, where, "sizes are read or stored for a folder without sub-streams")
            continue
        lo = [x for x in sg if x[0] == "loop"]
        if not sg or sg[-1][0] != "one" or len(sg) > 2 or len(sg) == 2 and not lo:
            rule.bad(key, where, "a folder with sub-streams does not get its sizes: %s" % [x[0] for x in sg])
            continue
        G = [e for e in q.ev[s:] if e.kind == "call" and e.name.endswith("get_unpack_size")]
        x = uncast(sg[-1][2])
        base = ZERO
        if lo:
            r2 = rounds(ps, q, lo[0][1], sub(num, ONE))
            if r2 is None:
                rule.bad(key, where, "the recorded sizes of a folder are not those of all its sub-streams but the last")
                continue
            vals = []
            for r, k2, s2 in r2:
                tt = tokens(r, hdr, s2)
                bb, s3 = chain(r, *lo[0][2])
                if len(tt) != 1 or tt[0].name not in ("read_u64", "read_usize") or len(s3) != 1 or s3[0][0] != "one" or uncast(s3[0][2]) is not tt[0].value:
                    rule.bad(key, where, "a round of the size loop does not store exactly the size it read")
                else:
                    vals.append((r, tt[0].value))
            base = None
            for h in lo[0][1].havoc:
                if len(h) == 4 and h[2].op == "lv" and isc(h[3], 0) and vals and all(uncast(sub(r.load(h[0], h[1]), h[2])) is v for r, v in vals):
                    base = h[2]
            if base is None:
                rule.bad(key, where, "the sum of the recorded sizes is not kept")
                continue
            if 9 not in got:
                rule.bad(key, where, "sizes are read though the record has none")
        elif 9 in got and not q.entails(le(num, ONE)):
            rule.bad(key, where, "with sizes recorded, those of a folder are not read")
        good = False
        for e in G:
            a = e.args[0]
            if a.op == "r" and a.a[1] is AR and a.a[2] == F + (("i", k),) and (sub(uncast(e.ret), base) is x or q.entails(eqi(sub(uncast(e.ret), base), x))):
                good = True
        if not good:
            rule.bad(key, where, "the last sub-stream of a folder gets size %s, not what the others leave of the folder's size" % pp(x)[:100])
    rule.ok("tables", "sub-stream sizes")


def own(q, k):
    """does q know whether the folder's checksum is that of its single sub-stream?"""
    num = q.load(AR, F + (("i", k), ("f", NUM)))
    has = q.load(AR, F + (("i", k), ("f", "has_crc")))
    if q.entails(eqi(num, ONE)) and truth(q, has):
        return True
    if q.entails(ne0(sub(num, ONE))) or neg(has) in q.fset or q.entails(eq0(has)):
        return False
    return None


def r_digests(rule, ps, p, hdr, ts, S, got, where):
    key = "read_sub_streams_info:digests"
    if 10 not in got:
        return
    t = ts[got[10] + 1]
    if t.name != "read_all_or_bits":
        rule.bad(key, t.where, "the checksum identifier is not followed by the set of defined checksums")
        return
    N = uncast(t.vals[1])
    bits = t.value
    # number of digests
    if N.op != "lv" or not counted_digests(ps, p, N):
        rule.bad(key + ":count", t.where, "the number of checksums, %s, is not the number of sub-streams without a folder checksum of their own" % pp(N)[:100])
    cell, segs = seg_of(p, field(S, "crcs"))
    its = rounds(ps, p, segs[0][1], folders_len(p)) if len(segs) == 1 and segs[0][0] == "loop" else None
    if its is None:
        rule.bad(key, where, "the checksums of sub-streams are not stored by one loop over the folders")
        return
    if place(ps, p, segs, ZERO) is None:
        rule.bad(key, where, "the checksums of sub-streams are not stored one after the other")
    root, path = segs[0][2]
    setcell = (root, path[:-1] + (("f", "has_crc"),))
    # sets are tracked with the same numbering as the table of checksums
    cnts = [h for h in segs[0][1].havoc if len(h) == 4 and h[2].op == "lv" and isc(h[3], 0)]
    for q, k, s in fit(p, its):
        o = own(q, k)
        num = q.load(AR, F + (("i", k), ("f", NUM)))
        b, sg = chain(q, root, path)
        ins = set_calls(q, s, setcell)
        if o is None:
            if not q.entails(eq0(num)) or sg:
                rule.bad(key, where, "a round of the checksum loop does not depend on whether the folder has a checksum for its only sub-stream")
        elif o:
            x = sg[0][2] if len(sg) == 1 and sg[0][0] == "one" else None
            if x is None or uncast(x) is not uncast(q.load(AR, F + (("i", k), ("f", "crc")))):
                rule.bad(key, where, "a single sub-stream does not get its folder's checksum")
            if [i for i, _ in ins] != ["insert"] or x is not None and sg[0][1] is not None and not q.entails(eqi(ins[0][1], sg[0][1])):
                rule.bad(key, where, "has_crc is not set for the sub-stream that gets its folder's checksum")
            for h in cnts:
                pass
        else:
            if not sg and q.entails(eq0(num)):
                continue
            r2 = rounds(ps, q, sg[0][1], num) if len(sg) == 1 and sg[0][0] == "loop" else None
            if r2 is None:
                rule.bad(key, where, "the sub-streams of a folder do not each get a checksum")
                continue
            taken(rule, key, ps, p, q, r2, hdr, root, path, setcell, bits, N, segs[0][1], sg[0][1], where)
    # the running number of digests moves only with the digests
    rule.ok("tables", "sub-stream checksums")


def set_calls(q, s, cell):
    out = []
    for e in q.ev[s:]:
        if e.kind == "call" and e.name in ("BitSet::insert", "BitSet::remove") and e.args[0].op == "r" and (e.args[0].a[1], e.args[0].a[2]) == cell:
            out.append((e.name.split("::")[-1], e.vals[1]))
    return out


def counted_digests(ps, p, N):
    ctx, bb, root, path = lvctx(N)
    le_ = [e for e in p.ev if e.kind == "loop" and e.x in ((ctx, bb), ("it", ctx))]
    h = [h for h in le_[-1].havoc if (h[0], h[1]) == (root, path)] if le_ else []
    if not h or not isc(h[0][3], 0):
        return False
    its = rounds(ps, p, le_[-1], folders_len(p))
    if its is None:
        return False
    for q, k, s in fit(p, its):
        d = sub(q.load(root, path), h[0][2])
        num = q.load(AR, F + (("i", k), ("f", NUM)))
        o = own(q, k)
        if not (o is True and d is ZERO or o is False and (uncast(d) is uncast(num) or q.entails(eqi(d, num))) or q.entails(eq0(num)) and d is ZERO):
            return False
    return True


def taken(rule, key, ps, p, q, r2, hdr, root, path, setcell, bits, N, outer, inner, where):
    """rounds over the sub-streams of one folder: the next digest, if it is defined"""
    cn = None
    for r, k2, s2 in r2:
        b, sg = chain(r, root, path)
        x = uncast(sg[0][2]) if len(sg) == 1 and sg[0][0] == "one" else None
        # which digest does this round look at?
        look = [(c, v) for c, v in contained(r, bits)]
        if len({c for c, v in look}) != 1:
            rule.bad(key, where, "a round over sub-streams does not look at one digest")
            return
        idx, v = look[0]
        h = [h for h in inner.havoc if len(h) == 4 and h[2] is idx]
        if not h or not isc(sub(r.load(h[0][0], h[0][1]), idx), 1):
            rule.bad(key, where, "the number of the digest, %s, does not go up by one with each sub-stream" % pp(idx)[:60])
            return
        ho = [o for o in outer.havoc if len(o) == 4 and o[2] is h[0][3]]
        if not ho or not isc(ho[0][3], 0):
            rule.bad(key, where, "the number of the digest does not start at 0 and go on over all folders")
            return
        cn = ho[0]
        ins = set_calls(r, s2, setcell)
        if v and ([i for i, _ in ins] != ["insert"] or sg and sg[0][1] is not None and not r.entails(eqi(ins[0][1], sg[0][1]))) or not v and any(i == "insert" for i, _ in ins):
            rule.bad(key, where, "has_crc of a sub-stream does not follow the set of defined digests")
        if v and not digest_value(ps, p, r, s2, hdr, x, idx, bits, N):
            rule.bad(key, where, "a sub-stream gets checksum %s, not digest number %s" % (x is not None and pp(x)[:80], pp(idx)[:60]))
    # folders that use none leave the number alone, the others end where their sub-streams ended
    if cn is not None:
        for w in ps:
            if w.kind == "loop" and w.x["loop"] == outer.x and compatible(p, w):
                it = item_event(w, max(i for i, e in enumerate(w.ev) if e.kind == "loop" and e.x == outer.x) + 1, outer)
                if it is None:
                    continue
                end = w.load(cn[0], cn[1])
                if own(w, sub(it.vals[1], ZERO)) is True and end is not cn[2]:
                    rule.bad(key, where, "a folder with its own checksum uses up a digest")


def contained(r, bits):
    out = []
    for g in r.facts:
        b, v = (g.a[0], False) if g.op == "not" else (g, True)
        if b.op in ("ne0", "eq0") and b.a[0].op in ("call", "pure"):
            b, v = b.a[0], v if b.op == "ne0" else not v
        if cname(b) == "BitSet::contains" and same_set(cvals(b)[0], bits) and not any(c is cvals(b)[1] for c, _ in out):
            out.append((cvals(b)[1], v))
    return out[-1:]


def digest_value(ps, p, r, s, hdr, x, idx, bits, N):
    if x is None:
        return False
    t = tokens(r, hdr, s)
    if len(t) == 1 and t[0].name == "read_u32":
        return x is t[0].value
    if t or x.op != "e" or not (x.a[1] is idx or r.entails(eqi(x.a[1], idx))):
        return False
    err, its = fills(ps, r, x.a[0], N)
    if err:
        return False
    for q, k, st, y in its:
        w = present(bits)(q, k)
        tt = tokens(q, hdr, st)
        if w is None or len(tt) != (1 if w else 0) or w and (tt[0].name != "read_u32" or y is None or uncast(y) is not tt[0].value):
            return False
    return True


# ---------------------------------------------------------------- writer

WOPQ = ("write_u64", "write_bit_set", "get_options_as_properties", "write_substreams", "write_files_info", "write_streams_info", "write_to",
        "write_header", "create_writer")
WR = "sevenz_rust::writer"


def wkey(rule, P, suffix):
    ks = [k for k in P.bodies if k.endswith(suffix) and WR in k and "#" not in k and "{" not in k]
    if len(ks) != 1:
        rule.bad("missing:" + suffix, "-", "function %s not found (or ambiguous): %s" % (suffix, ks))
        return None
    return ks[0]


def wrun(rule, P, key):
    op = {k for k in P.bodies if WR in k and "#" not in k and "{" not in k and k.split("::")[-1] in WOPQ or k.split("::")[-1] == "get_options_as_properties"}
    eng = flow.Engine(P, opaque=op - {key})
    ps = eng.run(key)
    rule.ran(eng, ps, key)
    return ps


def wroot(P, key, name=None):
    for i in range(1, 4):
        ty, nm = P.bodies[key].locals[i]
        if nm == "header" or nm == "out":
            return mk("D", mk("p", nm))
    return mk("D", mk("p", P.bodies[key].locals[2][1]))


SELF = mk("D", mk("p", "self"))


def w_pack(rule, P):
    key = wkey(rule, P, "PackInfo::write_to")
    if not key:
        return
    ps = wrun(rule, P, key)
    root = wroot(P, key)
    where = "%s (%s)" % (key, P.bodies[key].file())
    for p in oks(ps):
        L = lambda *f: p.load(SELF, tuple(("f", x) for x in f))
        c = cursor(rule, "PackInfo::write_to", ps, p, root, where)
        n = length(L("sizes"))
        c.byte(6, "kPackInfo")
        c.num(L("pos"), "position of the packed streams")
        c.num(n, "number of packed streams")
        c.byte(9, "kSize")
        c.rep(n, "pack sizes", lambda d, k: d.num(elem(L("sizes"), k), "size of the packed stream"))
        if c.peek()[0] == "byte" and c.eq(c.peek()[1], C(10)):
            c.byte(10, "kCRC")
            digests(rule, c, ps, p, L("crcs"))
        c.byte(0, "kEnd")
        c.end()
        rule.ok("section-paths", "PackInfo::write_to")


def digests(rule, c, ps, p, crcs):
    """(1, all of them) or (0, set of those that follow, those)"""
    if c.bad_:
        return
    k, v, t = c.peek()
    n = length(crcs)
    if k == "byte" and c.eq(v, ONE):
        c.byte(1, "all defined")
        c.rep(n, "checksums", lambda d, i: d.u32(elem(crcs, i), "checksum"))
        return
    c.byte(0, "not all defined")
    if c.bad_:
        return
    k, v, t = c.peek()
    bits = None
    if k == "bits":
        c.i += 1
        bits = v
    elif k == "raw":
        c.i += 1
        bits = bitbytes(p, v)
    if bits is None:
        c.fail("the set of defined checksums")
        return
    cond = setbits(rule, c, ps, p, bits, n)
    if cond is None:
        c.bad_ = True
        rule.bad(c.key, t.where, "the set of defined checksums is not built over all checksums, with the capacity of their number")
        return
    ins = cond

    def body(d, i):
        e = elem(crcs, i)
        w = ins(d.p, i, e)
        if w is None:
            d.fail("a checksum exactly if its bit is set: the round does not know")
        elif w:
            d.u32(e, "defined checksum")
    c.rep(n, "defined checksums", body)


def bitbytes(p, v):
    """the set a byte vector holds the bits of"""
    if v.op == "out" or v.op == "oute":
        ev = v.a[1] if v.op == "out" and isinstance(v.a[1], T) else v.a[0]
        for e in p.ev:
            if e.kind == "call" and e.name.endswith("write_bit_set") and any(x is e.ret for x in subterms(v)):
                first = e.vals[0]
                if first.op == "empty" or length(first) is ZERO:
                    return e.vals[1]
    return None


def setbits(rule, c, ps, p, bits, n):
    """(path, k, element) -> is bit k set? The set must be created with room for n and visited in full"""
    if bits.op not in ("lv", "lve"):
        return None
    ctx, bb, root, path = lvctx(bits)
    le_ = [e for e in p.ev if e.kind == "loop" and e.x in ((ctx, bb), ("it", ctx))]
    h = [h for h in le_[-1].havoc if (h[0], h[1]) == (root, path)] if le_ else []
    if not h or cname(h[0][3]) != "BitSet::with_capacity" or not c.eq(cvals(h[0][3])[0], n):
        return None
    its = rounds(ps, p, le_[-1], n)
    if its is None:
        return None
    conds = []
    for q, k, s in its:
        calls = set_calls(q, s, (root, path))
        if len(calls) > 1 or calls and (calls[0][0] != "insert" or not q.entails(eqi(calls[0][1], k))):
            return None
        own_ = [f for f in q.facts if any(x is k for x in subterms(f)) and f.op in ("eq0", "ne0", "not", "pure", "call", "f", "eq", "ne")]
        conds.append((bool(calls), [rewrite_iv(f, k) for f in own_], q))

    def is_set(r, i, e):
        res = set()
        for b, fs, q in conds:
            t = r.copy()
            if all(t.assume(put_iv(f, i)) for f in fs):
                res.add(b)
        return res.pop() if len(res) == 1 else None
    return is_set


HOLE = mk("hole", "k")


def rewrite_iv(f, k):
    return flow.rewrite(f, lambda x: HOLE if x is k else None)


def put_iv(f, i):
    return flow.rewrite(f, lambda x: i if x is HOLE else None)


def w_unpack(rule, P):
    key = wkey(rule, P, "UnpackInfo::write_to")
    if not key:
        return
    ps = wrun(rule, P, key)
    root = wroot(P, key)
    where = "%s (%s)" % (key, P.bodies[key].file())
    for p in oks(ps):
        fo = p.load(SELF, F)
        n = length(fo)
        c = cursor(rule, "UnpackInfo::write_to", ps, p, root, where)
        c.byte(7, "kUnpackInfo")
        c.byte(11, "kFolder")
        c.num(n, "number of folders")
        c.byte(0, "not external")

        def rec(d, k):
            t = d.call("write_to", "the record of the folder")
            if t is not None and t.ev.vals[0] is not elem(fo, k):
                d.i -= 1
                d.fail("the record of folder %s" % pp(k))
        c.rep(n, "folder records", rec)
        c.byte(12, "kCodersUnpackSize")

        def sizes(d, k):
            s = field(elem(fo, k), "sizes")
            d.rep(length(s), "unpacked sizes", lambda e, j: e.num(elem(s, j), "unpacked size"))
        c.rep(n, "unpacked sizes of folders", sizes)
        c.byte(10, "kCRC")
        c.byte(1, "all defined")
        c.rep(n, "folder checksums", lambda d, k: d.u32(field(elem(fo, k), "crc"), "checksum of the folder"))
        c.byte(0, "kEnd")
        c.end()
        rule.ok("section-paths", "UnpackInfo::write_to")


def w_sub(rule, P):
    key = wkey(rule, P, "UnpackInfo::write_substreams")
    if not key:
        return
    ps = wrun(rule, P, key)
    root = wroot(P, key)
    where = "%s (%s)" % (key, P.bodies[key].file())
    for p in oks(ps):
        fo = p.load(SELF, F)
        n = length(fo)
        num = lambda k: field(elem(fo, k), "num_sub_unpack_streams")
        ss = lambda k: field(elem(fo, k), "sub_stream_sizes")
        sc = lambda k: field(elem(fo, k), "sub_stream_crcs")
        c = cursor(rule, "UnpackInfo::write_substreams", ps, p, root, where)
        c.byte(8, "kSubStreamsInfo")
        c.byte(13, "kNumUnpackStream")
        c.rep(n, "sub-stream numbers", lambda d, k: d.num(num(k), "number of sub-streams"))
        c.byte(9, "kSize")

        def sizes(d, k):
            # decided by C13: len(sub_stream_sizes) = num, except that a single stream may have no entry
            if d.p.entails(le(length(ss(k)), ONE)) or d.p.entails(le(num(k), ONE)):
                t = d.peek()
                if t[0] == "loop" and rounds(d.ps, d.p, t[2].ev, ZERO) is not None:
                    d.i += 1
                return
            for H in (sub(length(ss(k)), ONE), sub(num(k), ONE)):
                t = d.peek()
                if t[0] == "loop" and rounds(d.ps, d.p, t[2].ev, H) is None:
                    continue
                d.rep(H, "sizes of all sub-streams but the last", lambda e, j: e.num(elem(ss(k), j), "size of the sub-stream"))
                return
            d.fail("the sizes of all sub-streams of the folder but the last")
        c.rep(n, "sub-stream sizes", sizes)
        c.byte(10, "kCRC")
        c.byte(1, "all defined")

        def crcs(d, k):
            if d.p.entails(eqi(num(k), ONE)):
                return
            if not d.p.entails(ne0(sub(num(k), ONE))):
                d.fail("checksums only if the folder has not exactly one sub-stream")
                return
            for H in (length(sc(k)), num(k)):
                t = d.peek()
                if t[0] == "loop" and rounds(d.ps, d.p, t[2].ev, H) is None:
                    continue
                d.rep(H, "checksums of sub-streams", lambda e, j: e.u32(elem(sc(k), j), "checksum of the sub-stream"))
                return
            d.fail("the checksums of all sub-streams of the folder")
        c.rep(n, "sub-stream checksums", crcs)
        c.byte(0, "kEnd")
        c.end()
        rule.ok("section-paths", "UnpackInfo::write_substreams")


def w_folder(rule, P):
    key = wkey(rule, P, "FolderInfo::write_to")
    if not key:
        return
    ps = wrun(rule, P, key)
    root = wroot(P, key)
    where = "%s (%s)" % (key, P.bodies[key].file())
    for p in oks(ps):
        m = p.load(SELF, (("f", "methods"),))
        c = cursor(rule, "FolderInfo::write_to", ps, p, root, where)
        k, v, t = c.peek()
        seqs = [e for e in p.ev if e.kind == "next" and e.name == "done" and base_of(e.vals[0]).op == "it" and base_of(e.vals[0]).a[0] == "seq"
                and any(x is m or x is origin_of(m) for x in subterms(e.vals[0].a[1] if e.vals[0].op == "it" else e.vals[0]))]
        content = next((seq_of(e) for e in p.ev if e.kind == "next" and e.name == "done" and seq_of(e) is not None and m in set(subterms(seq_of(e)))), None)
        if content is None:
            rule.bad("FolderInfo::write_to:methods", where, "the coders are not visited one by one")
            continue
        n = length(content)
        buf = None
        if k == "num" and counts(ps, p, v, n):
            c.i += 1
            k, v, t = c.peek()
            if k == "raw":
                buf = coder_bytes(rule, c, ps, p, t, content, n)
                c.i += 1
                if buf is None:
                    rule.bad("FolderInfo::write_to:coders", t.where, "the bytes written for the coders are not the records of all coders in order: %s" % pp(v)[:80])
                    continue
            else:
                c.rep(n, "coder records", lambda d, j: coder(rule, d, ps, content, j))
        else:
            c.fail("the number of coders")
            continue

        def pair(d, i):
            d.num(add(i, ONE), "input index")
            d.num(i, "output index")
        nb = [h for h in (sub(n, ONE), sub(uncast(c.ats[0][1]), ONE))]
        k, v, t = c.peek()
        if k == "loop":
            H = next((h for h in nb if rounds(ps, p, t.ev, h) is not None), nb[0])
        else:
            H = nb[0]
        c.rep(H, "bind pairs", pair)
        c.end()
        rule.ok("section-paths", "FolderInfo::write_to")


def origin_of(m):
    return m


def counts(ps, p, v, n):
    """v is n, or a counter that went up by one in each of n rounds"""
    v = uncast(v)
    if v is n or p.entails(eqi(v, n)):
        return True
    if v.op != "lv":
        return False
    ctx, bb, root, path = lvctx(v)
    le_ = [e for e in p.ev if e.kind == "loop" and e.x in ((ctx, bb), ("it", ctx))]
    h = [h for h in le_[-1].havoc if (h[0], h[1]) == (root, path)] if le_ else []
    if not h or not isc(h[0][3], 0):
        return False
    its = rounds(ps, p, le_[-1], n)
    return its is not None and all(isc(sub(q.load(root, path), h[0][2]), 1) for q, k, s in its)


def coder_bytes(rule, c, ps, p, t, content, n):
    """the buffer written holds one record per coder, in order, and nothing else"""
    a = t.ev.args[1]
    v = t.vals[1]
    if v.op not in ("lv", "lve"):
        return None
    ctx, bb, root, path = lvctx(v)
    le_ = [e for e in p.ev if e.kind == "loop" and e.x in ((ctx, bb), ("it", ctx))]
    h = [h for h in le_[-1].havoc if (h[0], h[1]) == (root, path)] if le_ else []
    if not h or not (h[0][3].op == "empty" or length(h[0][3]) is ZERO or cname(h[0][3]) in ("Vec::with_capacity", "Vec::new")):
        return None
    its = rounds(ps, p, le_[-1], n)
    if its is None:
        return None
    for q, k, s in its:
        d = Cur(rule, "FolderInfo::write_to", ps, q, atoms(q, root, s) or value_atoms(q, q.load(root, path), t), t.where)
        d.root, d.start = root, s
        coder(rule, d, ps, content, k)
        if not d.bad_ and d.peek()[0] is not None:
            d.fail("the end of the coder record")
    return True


def coder(rule, d, ps, content, k):
    """flags (length of the identifier, 0x20 with properties), identifier, [length, properties]"""
    q = d.p
    m = field(elem(content, k), "method")
    pe = [e for e in q.ev if e.kind == "call" and e.name.endswith("get_options_as_properties")]
    if len(pe) < 1 or pe[-1].vals[0] is not m:
        d.fail("the properties of the coder (from get_options_as_properties for this coder)")
        return
    pr = pe[-1].ret
    kk, v, t = d.peek()
    if kk != "byte":
        d.fail("the flags of the coder")
        return
    d.i += 1
    fl = v
    kk, v, t2 = d.peek()
    if kk != "raw" or not id_of(v, m):
        d.fail("the identifier of the coder")
        return
    d.i += 1
    ident = v
    ln = length(ident)
    has = None
    kk, v3, t3 = d.peek()
    prop = kk is not None
    w = flag_value(q, fl, ln, 0x20 if prop else 0)
    if not w:
        d.i -= 2
        d.fail("flags: length of the identifier%s" % (" | 0x20" if prop else " (no properties follow)"))
        return
    if prop:
        d.byte(lenof(q, pe[-1], pr), "number of property bytes")
        if d.bad_:
            return
        kk, v4, t4 = d.peek()
        if kk != "raw" or not is_ref_to(v4, pr):
            d.fail("the property bytes")
            return
        d.i += 1
    else:
        z = lenof(q, pe[-1], pr)
        if not q.entails(eq0(z)):
            d.fail("the property bytes, which may be there")


def lenof(q, e, pr):
    """length of the slice a call returned by reference"""
    for f in q.facts:
        for s in subterms(f):
            if s.op == "len" and pr in set(subterms(s)):
                return s
    return length(q.pointee(pr)) if hasattr(q, "pointee") else length(pr)


def is_ref_to(v, pr):
    return pr in set(subterms(v))


def id_of(v, m):
    return m in set(subterms(v))


def flag_value(q, fl, ln, bits):
    """the flags byte is the length, with the given bits"""
    x = fl
    if bits:
        if x.op == "bor":
            a, b = x.a
            if isc(a, bits):
                x = b
            elif isc(b, bits):
                x = a
            else:
                return False
        elif isc(sub(uncast_lin(x), uncast(ln)), bits):
            return True
        else:
            return False
    return uncast(x) is uncast(ln) or q.entails(eqi(uncast(x), uncast(ln)))


def uncast_lin(x):
    return uncast(x)


def w_top(rule, P):
    key = wkey(rule, P, "::write_streams_info")
    if key:
        ps = wrun(rule, P, key)
        root = wroot(P, key)
        where = "%s (%s)" % (key, P.bodies[key].file())
        for p in oks(ps):
            c = cursor(rule, "write_streams_info", ps, p, root, where)
            tables(c, p, (SELF, (("f", "pack_info"),)), (SELF, (("f", "unpack_info"),)))
            c.byte(0, "kEnd")
            c.end()
            rule.ok("section-paths", "write_streams_info")
    key = wkey(rule, P, "::write_header")
    if key:
        ps = wrun(rule, P, key)
        root = wroot(P, key)
        where = "%s (%s)" % (key, P.bodies[key].file())
        for p in oks(ps):
            c = cursor(rule, "write_header", ps, p, root, where)
            c.byte(1, "kHeader")
            if c.peek()[0] == "byte" and c.eq(c.peek()[1], C(4)):
                c.byte(4, "kMainStreamsInfo")
                c.call("write_streams_info", "the streams section")
            c.call("write_files_info", "the files section")
            c.byte(0, "kEnd")
            c.end()
            rule.ok("section-paths", "write_header")
    key = wkey(rule, P, "::write_encoded_header")
    if key:
        ps = wrun(rule, P, key)
        root = wroot(P, key)
        where = "%s (%s)" % (key, P.bodies[key].file())
        for p in oks(ps):
            encoded(rule, P, ps, p, root, where)


def tables(c, p, pk, un):
    """pack info, unpack info, sub-streams of the given tables; the first two may be left out when there is nothing"""
    def arg(t, cell):
        return t is None or t.ev.args[0].op == "r" and (t.ev.args[0].a[1], t.ev.args[0].a[2]) == cell
    k, v, t = c.peek()
    if k == "write_to":
        t = c.call("write_to", "the pack info")
        if "PackInfo" not in t.ev.name or not arg(t, pk):
            c.i -= 1
            return c.fail("the pack info of this archive")
        t = c.call("write_to", "the unpack info")
        if t is None:
            return
        if "UnpackInfo" not in t.ev.name or not arg(t, un):
            c.i -= 1
            return c.fail("the unpack info of this archive")
    elif not (p.entails(eq0(length(p.load(pk[0], pk[1] + (("f", "sizes"),))))) or p.entails(eq0(length(p.load(un[0], un[1] + (("f", "folders"),)))))):
        return c.fail("pack info and unpack info, for there may be packed streams")
    k, v, t = c.peek()
    if k == "write_substreams":
        t = c.call("write_substreams")
        if not arg(t, un):
            c.i -= 1
            c.fail("the sub-streams of this archive")


def encoded(rule, P, ps, p, root, where):
    c = cursor(rule, "write_encoded_header", ps, p, root, where)
    raw = [e for e in p.ev if e.kind == "call" and e.name.endswith("::write_header")]
    k, v, t = c.peek()
    if len(raw) != 1:
        rule.bad("write_encoded_header:raw", where, "the header proper is not produced exactly once")
        return
    made = raw[0]
    if k == "raw":
        c.raw("the header proper")
        if made.ret not in set(subterms(v)):
            c.i -= 1
            c.fail("the header proper")
        c.end()
        rule.ok("section-paths", "write_encoded_header")
        return
    c.byte(0x17, "kEncodedHeader")
    if c.bad_:
        return
    k, v, t = c.peek()
    if k != "write_to" or "PackInfo" not in t.ev.name:
        c.fail("the pack info of the encoded header")
        return
    pk = refcell(t.ev.args[0])
    pos = field(t.ev.vals[0], "pos")
    nx = [x for x in c.ats[c.i + 1:] if x[0] == "write_to"]
    if not nx:
        c.fail("pack info and unpack info")
        return
    tables(c, p, pk, refcell(nx[0][2].ev.args[0]))
    c.byte(0, "kEnd")
    c.end()
    # the packed header lies where the pack info says
    i = [j for j, e in enumerate(p.ev) if e.kind == "call" and e.name.endswith("stream_position") and pos is sub(field(vfield(e.ret, "Ok"), "0"), C(32))]
    out = [j for j, e in enumerate(p.ev) if e.kind == "call" and e.args and e.args[0].op == "r" and (e.args[0].a[1], e.args[0].a[2]) == (SELF, (("f", "output"),)) and e.name in ("Write::write_all", "Write::write")]
    if not i or len(out) != 1 or out[0] < i[0]:
        rule.bad("write_encoded_header:pos", where, "the position recorded for the encoded header (%s) is not that of the output before it is written" % pp(pos)[:80])
    rule.ok("section-paths", "write_encoded_header")
