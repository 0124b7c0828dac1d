"""Header bytes are used only after their CRC-32 matched."""
from sa.terms import *
from sa import flow
from sa.prov import *

TECHNIQUE = "must-precede dataflow on the header bytes (abstract interpretation of MIR)"
RULE = """On every path of Archive::read: (1) bytes 0..6 of the file equal the signature and byte 6 is 0 before anything
else of the file is used; (2) before the file is used beyond its first 32 bytes, either the CRC-32 of bytes 12..32
equals the value stored in bytes 8..12, or that value is 0 and bytes 12..32 are all 0 (recovery); (3) outside recovery
the next header is read at 32 + the offset in bytes 12..20, has exactly the size in bytes 20..28, and the CRC-32 of
exactly the bytes read equals the value in bytes 28..32 before any of them is interpreted."""
NOTE = RULE + " The reader is assumed to stand at the start of the archive; the recovery scan itself is exempt from the CRC rule."
SIG = (0x37, 0x7A, 0xBC, 0xAF, 0x27, 0x1C)


def where_from(t):
    """(buffer, lo, hi) a byte sequence or integer was taken from: reads from a slice of a buffer count up."""
    if cname(t) in ("num::from_le_bytes",):
        return where_from(cvals(t)[0])
    if t.op in ("out", "oute"):
        c = t.a[0] if t.op == "out" else t.a[1]
        i = t.a[1] if t.op == "out" else t.a[2]
        if cname(c) == "Read::read_exact" and i == 1:
            ln = length(cvals(c)[1])
            base, off = cursor(cvals(c)[0])
            if base is None:
                return t, ZERO, ln
            return base, off, add(off, ln)
    if t.op == "sl":
        r = where_from(t.a[0])
        return r and (r[0], add(r[1], t.a[1]), add(r[1], t.a[2]))
    if t.op == "cast" or t.op == "out":
        return where_from(t.a[1]) if t.op == "cast" else (t, ZERO, length(t))
    return None


def cursor(t):
    """(buffer, position) of a slice that is read from like a stream"""
    if t.op == "out":
        c = t.a[0]
        if cname(c) == "Read::read_exact" and t.a[1] == 0:
            b, o = cursor(cvals(c)[0])
            return b, (add(o, length(cvals(c)[1])) if b is not None else None)
    if t.op == "oute" and cname(t.a[1]) == "Read::read_exact" and t.a[2] == 1:
        return t, ZERO
    if t.op == "sl":
        b, o = cursor(t.a[0])
        return b, (add(o, t.a[1]) if b is not None else None)
    return None, None


def is_crc(t):
    return cname(t) in ("crc32::checksum",)


def eq_pairs(facts):
    for f in facts:
        if f.op == "eq":
            yield f.a
        elif f.op == "eq0":
            k, d = lin(f.a[0])
            if k == 0 and len(d) == 2 and sorted(d.values()) == [-1, 1]:
                yield tuple(d)


def span(t, buf, lo, hi):
    w = where_from(t)
    return w is not None and w[0] is buf and isc(w[1], lo) and isc(w[2], hi)


def check(rule, P):
    key = [k for k in P.bodies if k.endswith("::read") and "Archive>" in k]
    if len(key) != 1:
        return rule.bad("missing", "-", "Archive::read not found")
    key = key[0]
    op = {"decoders::add_decoder", "Folder::get_unpack_size", "Folder::get_unpack_size_at_index"}
    op |= {k for k in P.bodies if k.endswith(("::read_streams_info", "::read_header")) and "Archive>" in k}
    parse = {"reader::read_streams_info", "reader::read_header"}
    e = flow.Engine(P, opaque=op)
    ps = e.run(key)
    rule.ran(e, ps, key)
    where = "%s (%s)" % (key, P.bodies[key].file())
    rp = mk("D", mk("p", "reader"))
    n = {"normal": 0, "recovery": 0, "sig": 0}
    for p in ps:
        analyse(rule, P, p, ps, where, rp, parse, n)
    for k, v in n.items():
        if v:
            rule.ok(k, "%d paths" % v)
        rule.floor(k, 1)


def direct(e, rp):
    """e works on the archive's reader itself"""
    if e.kind != "call" or not e.args:
        return False
    a = e.args[0]
    if a.op == "r" and a.a[1] is rp and a.a[2] == ():
        return True
    v = e.vals[0] if e.vals else None
    return v is not None and cname(v) == "Read::take" and any(x.op == "r" and x.a[1] is rp for x in v.a[1])


def analyse(rule, P, p, ps, where, rp, parse, n):
    evs = [e for e in p.ev if direct(e, rp)]
    pos = ZERO
    got = []           # (lo, hi), content read there
    beyond = None
    for e in evs:
        if e.name == "Read::read_exact":
            ln = length(e.vals[1])
            if pos is None or ln.op != "c" or pos.op != "c" or pos.a[0] + ln.a[0] > 32:
                beyond = e
                break
            buf = filled(p, e)
            got.append(((pos.a[0], pos.a[0] + ln.a[0]), buf))
            # bytes 0..7 are tested before the next read
            pos = add(pos, ln)
        elif e.name == "Seek::stream_position":
            pass
        elif e.name == "Seek::seek":
            a = e.args[1]
            x = field(a, "0") if variant(a) == "Start" else None
            sp = [s for s in p.ev if s.name == "Seek::stream_position" and x is field(vfield(s.ret, "Ok"), "0")] if x is not None else []
            if sp and direct(sp[0], rp):
                pos = position_at(p, sp[0], rp)
            elif x is not None and x.op == "c" and x.a[0] < 32:
                pos = x
            else:
                beyond = e
                break
        else:
            beyond = e
            break
    ok_end = p.kind == "return" and p.variant_of(p.ret) == "Ok"
    if beyond is None:
        if ok_end:
            rule.bad("unread", where, "Archive::read succeeds without reading the next header")
        return
    facts = p.facts[:beyond.nf]

    def at(lo, hi):
        """predicate: value made of the bytes lo..hi of the file"""
        def f(t):
            w = where_from(t)
            if w is None:
                return False
            for (a, b), buf in got:
                if w[0] is buf and a <= lo and hi <= b and isc(w[1], lo - a) and isc(w[2], hi - a):
                    return True
            return False
        return f
    # 1. signature and version
    sig = any(at(0, 6)(a) and bytes_of(b) == SIG or at(0, 6)(b) and bytes_of(a) == SIG for a, b in eq_pairs(facts))
    ver = False
    for (a, b), buf in got:
        if a <= 6 < b and p_entails_zero(p, facts, buf, 6 - a):
            ver = True
    if not sig:
        rule.bad("signature", where, "the file is used beyond its first 32 bytes on a path where the signature was not compared")
    if not ver:
        rule.bad("version", where, "the file is used beyond its first 32 bytes on a path where the major version was not found to be 0")
    if sig and ver:
        n["sig"] += 1
    # 2. start header CRC
    f1 = any(is_crc(a) and at(12, 32)(data_of(a)) and at(8, 12)(b) for x, y in eq_pairs(facts) for a, b in ((x, y), (y, x)))
    zero = any(f.op == "eq0" and at(8, 12)(f.a[0]) for f in facts)
    if zero and any(f.op == "eq0" and is_crc(f.a[0]) and at(12, 32)(data_of(f.a[0])) for f in facts):
        f1 = True
    allz = False
    if zero:
        stop = p.ev.index(beyond)
        for x, content, its in scans(ps, p):
            if p.ev.index(x) < stop and at(12, 32)(content) and its and all(zero_item(q, it) for q, it in its):
                allz = True
        for a, b in eq_pairs(facts):
            for s, t in ((a, b), (b, a)):
                if at(12, 32)(s) and (t.op == "rep" and isc(t.a[0], 0) or bytes_of(t) == (0,) * 20):
                    allz = True
    if not f1:
        if zero and allz:
            n["recovery"] += 1
            return
        rule.bad("start-header", "%s, reached at %s" % (where, beyond.where),
                 "the next header is looked for on a path where the start header's CRC-32 was not found equal to the stored one%s" % (
                     " (the stored CRC is zero, but the 20 header bytes were not all found to be zero)" if zero else ""))
        return
    # 3. next header
    i = p.ev.index(beyond)
    nb = seek = rd = None
    for x in p.ev[i:]:
        if direct(x, rp):
            if x.name == "Seek::seek" and rd is None:
                seek = x
            elif x.name in ("Read::read_to_end", "Read::read_exact", "Read::read") and rd is None:
                rd = x
    if rd is None:
        if ok_end:
            rule.bad("unread", where, "Archive::read succeeds without reading the next header")
        return
    if p.variant_of(rd.ret) == "Err":
        return
    tgt = field(seek.args[1], "0") if seek is not None and variant(seek.args[1]) == "Start" else None
    k, d = lin(tgt) if tgt is not None else (0, {})
    if k != 32 or len(d) != 1 or list(d.values()) != [1] or not at(12, 20)(list(d)[0]):
        rule.bad("next-header-position", where, "the next header is read at %s, not at 32 + the recorded offset" % (pp(tgt)[:120] if tgt is not None else "an unknown place"))
    nb = filled(p, rd)
    j = p.ev.index(rd)
    use = None
    for x in p.ev[j + 1:]:
        if x.kind == "call" and not is_crc_ev(x) and x.vals and any(any(s is nb for s in subterms(v)) for v in x.vals if isinstance(v, T)):
            if x.name.endswith(("::len", "::as_slice", "::deref")):
                continue
            use = x
            break
    # a branch on a byte counts as a use as well
    nf = use.nf if use is not None else len(p.facts)
    for fi, f in enumerate(p.facts[rd.nf:nf], rd.nf):
        if any(s.op == "e" and s.a[0] is nb for s in subterms(f)):
            nf = fi
            use = use or rd
            break
    if use is None:
        if ok_end:
            rule.bad("unused", where, "Archive::read succeeds without interpreting the header")
        return
    fs = p.facts[:nf]
    crc = any(is_crc(a) and data_of(a) is nb and at(28, 32)(b) for x, y in eq_pairs(fs) for a, b in ((x, y), (y, x)))
    if not crc:
        rule.bad("next-header", "%s, used at %s" % (where, use.where), "header bytes are interpreted on a path where their CRC-32 was not found equal to the one in the start header")
    st = p
    size = any(at(20, 28)(a) and b is length(nb) or at(20, 28)(b) and a is length(nb) for a, b in eq_pairs(fs)) or at(20, 28)(length(nb))
    if not size:
        rule.bad("next-header-size", where, "header bytes are interpreted on a path where their number was not found equal to the recorded size")
    if crc and size:
        n["normal"] += 1


def zero_item(q, it):
    return any(f.op == "eq0" and f.a[0] is it for f in q.facts) or q.entails(eq0(it))


def is_crc_ev(x):
    return x.name.startswith("crc32::")


def data_of(t):
    return cvals(t)[1]


def bytes_of(t):
    if t.op == "b":
        return tuple(t.a[0])
    if t.op == "a" and all(x.op == "c" for x in t.a[3]):
        return tuple(x.a[0] for x in t.a[3])
    l = layout(t)
    return None


def p_entails_zero(p, facts, buf, i):
    x = elem(buf, C(i))
    return any(f.op == "eq0" and f.a[0] is x for f in facts)


def filled(p, e):
    """content of the buffer after a read event"""
    r, pa = e.args[1].a[1], e.args[1].a[2]
    if e.name == "Read::read_to_end":
        return mk("out", e.ret, 1, r, pa)
    return mk("oute", e.vals[1], e.ret, 1, r, pa)


def position_at(p, ev, rp):
    """reader position when `ev` ran, on a path that only read forward until then"""
    pos = ZERO
    for e in p.ev:
        if e is ev:
            return pos
        if direct(e, rp) and e.name == "Read::read_exact":
            pos = add(pos, length(e.vals[1]))
    return None
