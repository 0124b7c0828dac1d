"""The signature header is committed last and describes what was written."""
from sa.terms import *
from sa import flow
from sa.prov import *
from checks import wstream as w

TECHNIQUE = "must-precede path rules and symbolic byte layout (abstract interpretation of MIR)"
RULE = """finish: on every dataflow path the output is positioned at offset 0 only after write_encoded_header and the write of the
header succeeded; the only output operation after that seek is one whole-buffer write of 32 bytes (and flush); success
requires all of them. The abstract content of those 32 bytes, byte range by byte range: 0..6 the 7z signature, 6 the
major version 0, 8..12 the checksum of exactly the final bytes 12..32, 12..20 the output position right before the
header write minus 32, 20..28 the length and 28..32 the checksum of the very buffer written there. new: the only
operation on the output is a seek to offset 32, whose failure is returned. No other function of the writer seeks.
write_encoded_header: the recorded stream offset is the output position right before the packed header is written
(minus 32) and the packed header is the whole content collected behind the chain."""
NOTE = RULE
SIG = b"7z\xbc\xaf\x27\x1c"


def out_ev(p, cell):
    """operations on the writer's output cell"""
    res = []
    for i, e in enumerate(p.ev):
        if e.kind == "call" and e.args and e.args[0].op == "r" and e.name.startswith(("Write::", "Seek::", "WriteBytesExt::", "io::")):
            a = e.args[0]
            if (a.a[1], a.a[2][:len(cell[1])]) == (cell[0], cell[1]):
                res.append((i, e))
    return res


def start0(e):
    a = e.args[1] if len(e.args) > 1 else None
    return e.name == "Seek::rewind" or e.name == "Seek::seek" and variant(a) == "Start" and isc(field(a, "0"), 0)


def finish(rule, P):
    key = w.W + "finish"
    if key not in P.bodies:
        rule.bad("missing:finish", key, "function not found")
        return
    where = "%s (%s)" % (key, P.bodies[key].file())
    eng = flow.Engine(P, opaque={"SevenZWriter::write_encoded_header"})
    ps = eng.run(key)
    rule.ran(eng, ps, key)
    n = 0
    for p in ps:
        if p.kind == "panic":
            continue
        weh = [(i, e) for i, e in enumerate(p.ev) if e.kind == "call" and e.name == "SevenZWriter::write_encoded_header"]
        if not weh:
            rule.bad("finish:header", where, "a path through finish does not write the header")
            continue
        wi, we = weh[0]
        selfcell = refcell(we.args[0])
        cell = (selfcell[0], selfcell[1] + (("f", "output"),))
        hcell = refcell(we.args[1])
        evs = out_ev(p, cell)
        seeks = [(i, e) for i, e in evs if e.name.startswith("Seek::") and e.name != "Seek::stream_position"]
        okp = p.kind == "return" and p.variant_of(p.ret) == "Ok"
        zero = [(i, e) for i, e in seeks if start0(e)]
        for i, e in seeks:
            if not start0(e):
                rule.bad("finish:seek", e.where, "the output is moved to %s" % pp(e.args[1]))
        if len(weh) != 1 or zero and p.variant_of(we.ret) != "Ok":
            rule.bad("finish:header", where, "the header is encoded %d times, or its failure does not stop finish" % len(weh))
            continue
        if not zero:
            if okp:
                rule.bad("finish:commit", where, "finish succeeds without committing the signature header")
            elif any(e.name.startswith("Write::write") and i > wi and p.variant_of(e.ret) == "Ok" and not hdr(p, e, hcell, we) for i, e in evs):
                rule.bad("finish:extra", where, "something else than the header is written before the signature header")
            continue
        zi = zero[0][0]
        hw = [(i, e) for i, e in evs if wi < i < zi and e.name.startswith("Write") and e.name != "Write::flush"]
        if len(hw) != 1 or not hdr(p, hw[0][1], hcell, we) or hw[0][1].name != "Write::write_all":
            rule.bad("finish:header-write", where, "between encoding the header and committing the signature header, the output gets %s, not exactly the header" % [pp(e.args[1]) for _, e in hw])
            continue
        if p.variant_of(hw[0][1].ret) != "Ok":
            rule.bad("finish:order", where, "the signature header is committed although writing the header failed")
            continue
        if any(i < wi for i, e in evs):
            rule.bad("finish:extra", where, "the output is touched before the header is encoded")
        fin = [(i, e) for i, e in evs if i > zi and e.name != "Write::flush"]
        if len(zero) != 1 or len(fin) > 1 or any(e.name != "Write::write_all" for _, e in fin):
            rule.bad("finish:commit", where, "after the move to offset 0 the output gets %s" % [e.name for _, e in fin])
            continue
        if not fin:
            if okp:
                rule.bad("finish:commit", where, "finish succeeds without writing the signature header")
            continue
        if okp and (p.variant_of(fin[0][1].ret) != "Ok" or p.variant_of(zero[0][1].ret) != "Ok"):
            rule.bad("finish:commit", where, "finish succeeds although committing the signature header failed")
        if fin and p.variant_of(zero[0][1].ret) != "Ok":
            rule.bad("finish:commit", where, "the signature header is written although the move to offset 0 failed")
        content(rule, p, fin[0][1], hw[0], evs, hcell, we, where)
        n += 1
    if n:
        rule.ok("commit", "finish: %d paths reach the commit" % n)


def hdr(p, e, hcell, we):
    """is the buffer written the one write_encoded_header filled, whole?"""
    if len(e.args) < 2 or e.args[1].op != "r":
        return False
    return refcell(e.args[1]) == hcell


def content(rule, p, fin, hw, evs, hcell, we, where):
    v = fin.vals[1]
    lay = layout(v)
    if lay is None or not isc(length(v), 32):
        rule.bad("finish:layout", fin.where, "the signature header is not a 32 byte block: %s" % pp(v))
        return
    sig = lay_bytes(lay, 0, 6)
    if sig != SIG:
        rule.bad("finish:signature", fin.where, "bytes 0..6 are %s" % sig)
    if lay_bytes(lay, 6, 7) != b"\0":
        rule.bad("finish:version", fin.where, "major version is %s" % lay_bytes(lay, 6, 7))
    H = hw[1].vals[1]
    pos = [e for i, e in evs if e.name == "Seek::stream_position" and i < hw[0] and not any(j > i and j < hw[0] and x.name != "Write::flush" and not x.name == "Seek::stream_position" for j, x in evs)]
    off = lay_int(lay, 12, 20)
    wanted = [sub(field(vfield(e.ret, "Ok"), "0"), C(32)) for e in pos]
    wanted += [sub(sub(field(vfield(e.ret, "Ok"), "0"), length(H)), C(32)) for i, e in evs if e.name == "Seek::stream_position" and i > hw[0]
               and not any(hw[0] < j < i and x.name.startswith("Seek::") and x.name != "Seek::stream_position" for j, x in evs)]
    if off is None or not any(p.entails(eqi(strip(off), x)) for x in wanted):
        rule.bad("finish:offset", fin.where, "recorded header offset is %s, not the position of the header minus 32" % (off and pp(off)))
    ln = lay_int(lay, 20, 28)
    if ln is None or not p.entails(eqi(strip(ln), length(H))):
        rule.bad("finish:size", fin.where, "recorded header size is %s, not the length of the header written" % (ln and pp(ln)))
    crc = lay_int(lay, 28, 32)
    if not (crc is not None and checks(p, strip(crc), lambda x: x is H)):
        rule.bad("finish:crc", fin.where, "recorded header checksum is %s, not that of the header written" % (crc and pp(crc)))
    c2 = lay_int(lay, 8, 12)
    tail = layout(mk("sl", v, C(12), C(32)))
    if not (c2 is not None and checks(p, strip(c2), lambda x: same_layout(layout(x), tail))):
        rule.bad("finish:start-crc", fin.where, "bytes 8..12 are %s, not the checksum of the 20 bytes that follow" % (c2 and pp(c2)))


def checks(p, t, want):
    """t is the one-shot or incremental CRC of a value satisfying `want`"""
    if t.op != "call":
        return False
    if t.a[0].endswith("::checksum"):
        return want(t.a[2][-1])
    if t.a[0] == "crc32::finalize":
        d = t.a[2][0]
        if d.op == "out" and d.a[0].a[0] == "crc32::update":
            u = d.a[0]
            return u.a[2][0].op == "call" and u.a[2][0].a[0] == "crc32::digest" and want(u.a[2][1])
    return False


def same_layout(a, b):
    return a is not None and b is not None and norm(a) == norm(b)


def norm(lay):
    out = []
    for x, y, v, k in lay:
        bs = lay_bytes(lay, x, y)
        if bs is not None:
            out += [(x + i, b) for i, b in enumerate(bs)]
        else:
            out.append((x, y, v, k))
    return out


def new(rule, P):
    key = w.W + "new"
    if key not in P.bodies:
        rule.bad("missing:new", key, "function not found")
        return
    where = "%s (%s)" % (key, P.bodies[key].file())
    eng = flow.Engine(P)
    ps = eng.run(key)
    rule.ran(eng, ps, key)
    for p in ps:
        if p.kind != "return":
            continue
        ops = [e for e in p.ev if e.kind == "call" and e.name.startswith(("Write::", "Seek::", "WriteBytesExt::"))]
        bad = [e for e in ops if not (e.name == "Seek::seek" and variant(e.args[1]) == "Start" and isc(field(e.args[1], "0"), 32))]
        if bad:
            rule.bad("new:output", bad[0].where, "creating a writer does %s(%s) on the output" % (bad[0].name, ", ".join(pp(a) for a in bad[0].args[1:])))
        if p.variant_of(p.ret) == "Ok":
            if not ops or any(p.variant_of(e.ret) != "Ok" for e in ops):
                rule.bad("new:position", where, "a writer is created without the output being positioned behind the signature header")
            else:
                r = field(vfield(p.ret, "Ok"), "0")
                pi = field(field(r, "pack_info"), "pos")
                if not p.entails(eq0(pi)):
                    rule.bad("new:pos", where, "the first packed stream is recorded at offset %s" % pp(pi))
                rule.ok("new", where)


def others(rule, P):
    """no other function of the writer moves the output"""
    allowed = {w.W + "finish", w.W + "new"}
    n = 0
    for k, b in P.bodies.items():
        if "sevenz_rust::writer::" not in k and "sevenz_rust::encoders" not in k or "#" in k:
            continue
        n += 1
        for _, c in P.call_sites(b):
            if c.get("trait", "").endswith("io::seek::Seek") and c.get("name") not in ("stream_position", "stream_len"):
                for root in P.entry_points(k):
                    if root not in allowed and not restores(rule, P, root):
                        rule.bad("seek:" + root, k, "%s moves the output (%s)" % (root, c.get("name")))
    rule.ok("others", "%d functions of the writer scanned for seeks" % n)


def restores(rule, P, root):
    """a seek outside new/finish may only take the output back to a position it had in the same call"""
    short = root.split("::")[-1]
    eng = flow.Engine(P, opaque={w.CREATE})
    try:
        ps = eng.run(root)
    except flow.Limit:
        return False
    rule.ran(eng, ps, root)
    for p in ps:
        for i, e in enumerate(p.ev):
            if e.kind == "call" and e.name.startswith("Seek::") and e.name not in ("Seek::stream_position", "Seek::stream_len"):
                a = e.args[1] if len(e.args) > 1 else None
                pos = [x for x in p.ev[:i] if x.kind == "call" and x.name == "Seek::stream_position"]
                if a is None or variant(a) != "Start" or not any(p.entails(eqi(field(a, "0"), field(vfield(x.ret, "Ok"), "0"))) for x in pos):
                    return False
    return True


def header(rule, P):
    key, ps = w.run(P, rule, "write_encoded_header")
    if key is None:
        rule.bad("missing:write_encoded_header", "-", "function not found")
        return
    where = "%s (%s)" % (key, P.bodies[key].file())
    cell = (w.SELF[0] if isinstance(w.SELF, tuple) else w.SELF, (("f", "output"),))
    n = 0
    for p in ps:
        if p.kind != "return" or p.variant_of(p.ret) != "Ok":
            continue
        pw = [(i, e) for i, e in enumerate(p.ev) if e.kind == "call" and e.name == "PackInfo::write_to"]
        S = w.Section(p)
        evs = [(i, e) for i, e in out_ev(p, cell)]
        wr = [(i, e) for i, e in evs if e.name.startswith("Write") and e.name != "Write::flush"]
        if not pw:
            if wr:
                rule.bad("header:stray", wr[0][1].where, "a packed header is written to the output but not recorded")
            continue
        if len(wr) != 1 or wr[0][1].name != "Write::write_all":
            if S.ktgt == cell and not wr:
                rule.ok("encoded-header", "streamed straight to the output")
                continue
            rule.bad("header:write", where, "the packed header is written by %s" % [e.name for _, e in wr])
            continue
        wi, we = wr[0]
        pos = [e for i, e in evs if e.name == "Seek::stream_position" and i < wi]
        rec = field(pw[0][1].vals[0], "pos")
        if not any(p.entails(eqi(rec, sub(field(vfield(e.ret, "Ok"), "0"), C(32)))) for e in pos):
            rule.bad("header:pos", where, "the packed header is recorded at %s, not at the output position minus 32" % pp(rec))
        a = we.args[1]
        src = refcell(a)
        whole = src and S.ktgt and src[0] is S.ktgt[0]
        if whole and src[1][:len(S.ktgt[1])] == S.ktgt[1] and len(src[1]) > len(S.ktgt[1]):
            s = src[1][-1]
            sizes = field(pw[0][1].vals[0], "sizes")
            whole = s[0] == "sl" and isc(s[1], 0) and sizes.op == "push" and p.entails(eqi(s[2], strip(sizes.a[1])))
        if not whole:
            rule.bad("header:data", we.where, "the packed header written is %s, not what the encoder chain produced" % pp(a))
        n += 1
    if n:
        rule.ok("encoded-header", "%d paths" % n)


def check(rule, P):
    finish(rule, P)
    new(rule, P)
    others(rule, P)
    header(rule, P)
    rule.floor("commit", 1)
    rule.floor("new", 1)
    rule.floor("others", 1)
    rule.floor("encoded-header", 1)
