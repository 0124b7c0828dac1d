"""Finishing a stream drains every stage of the encoder chain."""
from sa.terms import *
from sa import flow, adapters as A, mir
from sa.prov import *
from checks import wstream as w

TECHNIQUE = "must-pass-through path analysis (abstract interpretation of MIR)"
RULE = """(1) In every encoder that the writer's Encoder enum can hold, and in every counting adapter between two stages, each
successful path of write() with an empty buffer ends in exactly one write of the empty buffer to the wrapped writer,
after everything else it does with that writer, and a failure of any step on the way is returned. (2) Before that
signal: LZMA - the match window is switched to finishing, then encode_for_lzma1 runs, then (iff use_end_marker) the end
marker is coded, then the range coder is finished; LZMA2 - finishing, then chunks are coded until pending_size is 0,
then the 0x00 end marker is written; AES - a partial block left in the buffer is copied to the front of a zero block,
encrypted, written whole, and the buffer is empty afterwards. (3) Supporting facts: LZEncoderData::set_finishing sets
read_limit = write_pos - 1 and finishing; encode_for_lzma1 returns Ok only after encode_symbol said there is no more data
(or encode_init had none); RangeEncoder::finish shifts out 5 bytes; write() adds to pending_size exactly what
fill_window took. (4) The Encoder enum hands buffer and result through for every variant. (5) create_writer wraps every
configured method around the previous stage, in order, and returns the last stage. (6) At the three places where the
writer feeds a chain, every successful path sends the signal after the last data write and reads checksums and sizes
only after it."""
NOTE = RULE + " Decided for every dataflow path (loops cut and havoc'd); what encode_symbol codes is not part of the rule."

OP = {"LZMAEncoder::encode_for_lzma1", "LZMAEncoder::encode_lzma1_end_marker", "LZMAEncoder::encode_for_lzma2",
      "LZMAEncoder::reset", "RangeEncoder::finish", "LZEncoder::set_finishing", "LZMA2Writer::write_chunk"}
BUF = mk("p", "buf")


def empty(p, a):
    ln = w.length_of(p, a)
    return ln is not None and p.entails(eq0(ln))


def self_loc(a):
    return a.op == "r" and any(x is mk("p", "self") for x in subterms(a.a[1]))


def run_empty(rule, P, key):
    body = P.bodies[key]
    bufp = mk("p", body.locals[2][1] or "arg2")
    e = flow.Engine(P, opaque=OP)
    ps = e.run(key, setup=lambda st: st.assume(eq0(length(mk("d", bufp)))))
    rule.ran(e, ps, key)
    return ps


def calls(p, *names):
    return [(i, e) for i, e in enumerate(p.ev) if e.kind == "call" and e.name in names]


def io_events(p):
    return [(i, e) for i, e in enumerate(p.ev) if e.kind == "call" and e.name.startswith(("Write::", "WriteBytesExt::")) and self_loc(e.args[0])]


def signal(rule, P, ty, key):
    """rule (1); returns the successful paths with their signal index"""
    nm = ty.split("::")[-1]
    where = "%s (%s)" % (key, P.bodies[key].file())
    res = []
    for p in run_empty(rule, P, key):
        if p.kind != "return":
            continue
        v = p.variant_of(p.ret)
        if v == "Err":
            continue
        if v is None and p.ret.op == "call" and p.ret.a[0] == "Write::write":
            v = "Ok"
        elif v != "Ok":
            rule.bad(nm + ":result", where, "result of the end-of-stream write is %s" % pp(p.ret))
            continue
        io = io_events(p)
        sig = [(i, e) for i, e in io if e.name in ("Write::write", "Write::write_all") and empty(p, e.args[1])]
        if nm == "CountingWriter" or nm == "CompressWrapWriter" or nm in ENC:
            # write_all of an empty buffer never reaches the wrapped writer
            sig = [(i, e) for i, e in sig if e.name == "Write::write"]
        if len(sig) != 1:
            rule.bad(nm + ":signal", where, "end of stream is passed on %d times on the path with %s" % (len(sig), [pp(f) for f in p.facts][:6]))
            continue
        i, e = sig[0]
        if io[-1][0] != i:
            rule.bad(nm + ":order", io[-1][1].where, "%s is written after the end-of-stream signal was passed on" % io[-1][1].name)
        for j, x in calls(p, *OP):
            if j > i:
                rule.bad(nm + ":order", x.where, "%s runs after the end-of-stream signal was passed on" % x.name)
        # nothing on the way failed
        for j, x in enumerate(p.ev):
            if x.kind == "call" and x.ret is not None and p.variant_of(x.ret) == "Err" and (j < i or x is e):
                rule.bad(nm + ":ignored", x.where, "%s failed, yet the end-of-stream write returns success" % x.name)
        res.append((p, i))
    if not res:
        rule.bad(nm + ":signal", where, "no successful path passes the end of stream on")
    rule.ok("stage", "%s: %d successful end-of-stream paths" % (nm, len(res)))
    return res, where


def lzma(rule, P, ty, res, where):
    for p, i in res:
        fin = calls(p, "LZEncoder::set_finishing")
        enc = calls(p, "LZMAEncoder::encode_for_lzma1")
        mark = calls(p, "LZMAEncoder::encode_lzma1_end_marker")
        rcf = calls(p, "RangeEncoder::finish")
        if not fin or not enc or fin[0][0] > enc[-1][0] or enc[-1][0] > i:
            rule.bad("LZMAWriter:drain", where, "end of stream without coding all data left in the window (set_finishing %s, encode_for_lzma1 %s)" % (bool(fin), bool(enc)))
            continue
        if not rcf or rcf[-1][0] < enc[-1][0] or rcf[-1][0] > i:
            rule.bad("LZMAWriter:range-coder", where, "end of stream without finishing the range coder after the last symbol")
            continue
        use = w.field(mk("d", mk("p", "self")), "use_end_marker")
        if mark:
            if not (enc[-1][0] < mark[0][0] < rcf[-1][0]):
                rule.bad("LZMAWriter:marker", where, "end marker is not coded between the last symbol and the end of the range coder")
        elif not p.entails(neg(use)):
            rule.bad("LZMAWriter:marker", where, "use_end_marker is set, but no end marker is coded")
        if mark and not p.entails(use):
            rule.bad("LZMAWriter:marker", where, "end marker is coded although use_end_marker is not set")
    rule.ok("drain", "LZMAWriter")


def lzma2(rule, P, ty, res, where):
    for p, i in res:
        fin = calls(p, "LZEncoder::set_finishing")
        if not fin or fin[0][0] > i:
            rule.bad("LZMA2Writer:drain", where, "end of stream without switching the window to finishing")
            continue
        marks = [(j, e) for j, e in io_events(p) if j < i]
        m = [(j, e) for j, e in marks if e.name == "WriteBytesExt::write_u8" and isc(e.args[1], 0) or e.name == "Write::write_all" and one_zero(p, e.args[1])]
        if len(m) != 1 or marks[-1][0] != m[-1][0]:
            rule.bad("LZMA2Writer:marker", where, "the 0x00 end marker is written %d times at the end of the stream" % len(m))
            continue
        enc = calls(p, "LZMAEncoder::encode_for_lzma2")
        # pending_size was 0 when the marker was written
        pend = p.load(w.SELF, (("f", "pending_size"),))
        if not p.entails(le(pend, ZERO)):
            rule.bad("LZMA2Writer:drain", where, "end marker written although pending_size = %s may be left (%s)" % (pp(pend), [pp(f) for f in p.facts][:5]))
        for j, x in enc + calls(p, "LZMA2Writer::write_chunk"):
            if j < fin[0][0]:
                rule.bad("LZMA2Writer:drain", x.where, "data coded before the window was switched to finishing")
    rule.ok("drain", "LZMA2Writer")


def one_zero(p, a):
    v = p.load(a.a[1], a.a[2]) if a.op == "r" else a
    ln = w.length_of(p, a)
    return ln is not None and isc(ln, 1) and p.entails(eq0(elem(v, ZERO)))


def aes(rule, P, ty, res, where):
    b0 = field(mk("d", mk("p", "self")), "buffer")
    for p, i in res:
        nb = p.load(w.SELF, (("f", "buffer"),))
        if not p.entails(eq0(length(nb))):
            rule.bad("Aes256Sha256Encoder:drain", where, "the partial block left in the buffer is not emitted: %s left" % pp(nb))
            continue
        if p.entails(eq0(length(b0))):
            continue
        en = [(j, e) for j, e in calls(p, "BlockEncryptMut::encrypt_block_mut") if j < i]
        wr = [(j, e) for j, e in calls(p, "Write::write_all") if j < i and self_loc(e.args[0])]
        if len(en) != 1 or len(wr) != 1 or en[0][0] > wr[0][0] or refcell(en[0][1].args[1]) != refcell(wr[0][1].args[1]):
            rule.bad("Aes256Sha256Encoder:drain", where, "the last partial block is not encrypted and written whole (%d encryptions, %d writes)" % (len(en), len(wr)))
            continue
        v = en[0][1].vals[1]
        if v.op == "resized" and v.a[0] is b0 and isc(v.a[1], 16) and isc(v.a[2], 0):
            continue
        src = project(v, (("sl", ZERO, length(b0)),))
        if not isc(length(v), 16) or not (src is b0 or b0 in subterms(src)):
            rule.bad("Aes256Sha256Encoder:drain", en[0][1].where, "the last block is %s, not the buffered bytes" % pp(v))
        base = v
        while base.op in ("usl", "ue"):
            base = base.a[0]
        if not (base.op == "rep" and isc(base.a[0], 0)):
            rule.bad("Aes256Sha256Encoder:padding", en[0][1].where, "the last block is padded with %s, not zeros" % pp(base))
    rule.ok("drain", "Aes256Sha256Encoder")


ENC = {"LZMAWriter": lzma, "LZMA2Writer": lzma2, "Aes256Sha256Encoder": aes}


def enum_dispatch(rule, P, key):
    """rule (4)"""
    where = "%s (%s)" % (key, P.bodies[key].file())
    e = flow.Engine(P, opaque={"LZMAWriter::write", "LZMA2Writer::write", "Aes256Sha256Encoder::write"} | {k for k in P.bodies if k.endswith("Write>::write") and any(n in k for n in ENC)})
    ps = e.run(key)
    rule.ran(e, ps, key)
    vs = {}
    for p in ps:
        if p.kind != "return":
            continue
        v = p.variant_of(mk("d", mk("p", "self")))
        cs = [x for x in p.ev if x.kind == "call" and x.name.endswith("write")]
        if len(cs) != 1 or not self_loc(cs[0].args[0]) or cs[0].args[1] is not mk("r", cs[0].args[1].a[0], mk("D", BUF), ()) and cs[0].args[1] is not BUF:
            rule.bad("Encoder:%s" % v, where, "variant %s does not hand the caller's buffer to its encoder: %s" % (v, [str(x) for x in cs]))
            continue
        if p.ret is not cs[0].ret:
            rule.bad("Encoder:%s" % v, where, "variant %s does not return its encoder's result" % v)
        vs[v] = cs[0].name
    for v in vs:
        rule.ok("variant", "Encoder::%s -> %s" % (v, vs[v]))


def support(rule, P):
    def eng(key, **kw):
        ks = [k for k in P.bodies if k.endswith(key) and "#" not in k]
        if not ks:
            rule.bad("missing:" + key, key, "function not found")
            return None, []
        e = flow.Engine(P, **kw)
        ps = e.run(ks[0])
        rule.ran(e, ps, ks[0])
        return "%s (%s)" % (ks[0], P.bodies[ks[0]].file()), ps
    # set_finishing
    where, ps = eng("LZEncoderData::set_finishing", opaque={"LZEncoderData::process_pending_bytes"})
    n = 0
    for p in ps:
        if p.kind != "return":
            continue
        n += 1
        old = mk("d", mk("p", "self"))
        c = calls(p, "LZEncoderData::process_pending_bytes")
        # values handed to process_pending_bytes (or final ones when there is no such call)
        cur = c[0][1].vals[0] if c else p.load(w.SELF, ())
        if not p.entails(eqi(field(cur, "read_limit"), sub(field(old, "write_pos"), ONE))) or not p.entails(field(cur, "finishing")) and not isc(field(cur, "finishing"), 1):
            rule.bad("set_finishing", where, "set_finishing does not open the whole window to the encoder (read_limit = %s, finishing = %s)" % (pp(field(cur, "read_limit")), pp(field(cur, "finishing"))))
        if not c:
            rule.bad("set_finishing", where, "bytes pending in the match finder are not processed")
    if n:
        rule.ok("support", "set_finishing")
    # encode_for_lzma1: Ok only when no symbol is left
    where, ps = eng("LZMAEncoder::encode_for_lzma1", opaque={"LZMAEncoder::encode_symbol", "LZMAEncoder::encode_init"})
    n = 0
    for p in ps:
        if p.kind == "return" and p.variant_of(p.ret) == "Ok":
            n += 1
            last = [e for _, e in calls(p, "LZMAEncoder::encode_symbol", "LZMAEncoder::encode_init")]
            if not last or p.variant_of(last[-1].ret) != "Ok" or not p.entails(neg(field(vfield(last[-1].ret, "Ok"), "0"))):
                rule.bad("encode_for_lzma1", where, "stops coding although data may be left (%s)" % [pp(f) for f in p.facts][-3:])
    if n:
        rule.ok("support", "encode_for_lzma1")
    # encode_symbol says "no more" only when the window is exhausted
    where, ps = eng("LZMAEncoder::encode_symbol", opaque={"LZEncoderData::has_enough_data"}, inline_filter=lambda k: "LZEncoder" in k)
    for p in ps:
        if p.kind == "return" and p.variant_of(p.ret) == "Ok" and p.entails(neg(field(vfield(p.ret, "Ok"), "0"))):
            h = [e for _, e in calls(p, "LZEncoderData::has_enough_data")]
            if not h or not p.entails(neg(h[-1].ret)):
                rule.bad("encode_symbol", where, "reports the end of data while the window still has some")
            else:
                rule.ok("support", "encode_symbol")
    # the range coder's tail
    where, ps = eng("RangeEncoder::<W>::finish", opaque={"RangeEncoder::shift_low"})
    shifts(rule, ps, where)
    # pending_size counts what fill_window took
    im = A.impls(P, A.WRITE, "write")
    for ty, (key, it) in im.items():
        if not ty.endswith("LZMA2Writer"):
            continue
        e = flow.Engine(P, opaque=OP | {"LZEncoder::fill_window"})
        ps = e.run(key)
        rule.ran(e, ps, key)
        where = "%s (%s)" % (key, P.bodies[key].file())
        for p in ps:
            if p.kind != "loop":
                continue
            fw = [x for x in after_loop(p, p.x["loop"]) if x.kind == "call" and x.name == "LZEncoder::fill_window"]
            if not fw:
                continue
            snap = p.loops[p.x["loop"]][0]
            old = project(snap.get(w.SELF, p.init(w.SELF)), (("f", "pending_size"),))
            enc = [x for x in after_loop(p, p.x["loop"]) if x.kind == "call" and x.name in ("LZMAEncoder::encode_for_lzma2",)]
            if not enc:
                rule.bad("LZMA2Writer:pending", where, "data taken into the window is not coded")
                continue
            cur = project(p.load(w.SELF, ()), (("f", "pending_size"),))
            wc = [x for x in after_loop(p, p.x["loop"]) if x.kind == "call" and x.name == "LZMA2Writer::write_chunk"]
            if wc:
                cur = field(wc[0].vals[0], "pending_size")
            if not p.entails(eqi(cur, add(old, fw[0].ret))) and uncast(sub(cur, old)) is not fw[0].ret:
                rule.bad("LZMA2Writer:pending", where, "pending_size grows by %s when the window took %s" % (pp(sub(cur, old)), pp(fw[0].ret)))
            else:
                rule.ok("support", "LZMA2 pending_size")


def shifts(rule, ps, where):
    """RangeEncoder::finish moves five bytes out: either five calls in a row or a loop over a range of five"""
    n = 0
    for p in ps:
        if p.kind == "return" and p.variant_of(p.ret) == "Ok":
            k = len(calls(p, "RangeEncoder::shift_low"))
            lp = [e for e in p.ev if e.kind == "loop"]
            if k >= 5:
                n += 1
                continue
            rng = loop_range(p, ps)
            if rng is None or rng < 5:
                rule.bad("RangeEncoder::finish", where, "only %s bytes are shifted out of the range coder at its end, 5 are needed" % (rng if rng is not None else k))
            else:
                n += 1
    if n:
        rule.ok("support", "RangeEncoder::finish")


def loop_range(p, ps):
    """number of rounds of the (only) counted loop on this path, when every round shifts exactly one byte"""
    for q in ps:
        if q.kind == "loop" and len(calls(q, "RangeEncoder::shift_low")) != 1:
            return None
    best = None
    for f in p.facts:
        # exit fact of `for _ in 0..N` / `while i < N`: iv >= N
        if f.op == "ge0":
            c, d = lin(f.a[0])
            if len(d) == 1 and list(d.values()) == [1] and list(d)[0].op in ("iv", "lv"):
                at = list(d)[0]
                init = ZERO if at.op == "iv" else p.x.get(("init", at))
                if init is not None and init.op == "c":
                    best = max(best or 0, -c - init.a[0])
    if best is None:
        for e in p.ev:
            if e.kind == "next":
                best = rounds(e)
    if best is None:
        for q in ps:
            for f in q.facts:
                if f.op == "ge0":
                    c, d = lin(f.a[0])
                    if len(d) == 1 and list(d.values()) == [-1] and list(d)[0].op == "iv":
                        best = max(best or 0, c + 1)
    return best


def rounds(e):
    return None


def chain(rule, P):
    """rule (5)"""
    key = w.W + "create_writer"
    if key not in P.bodies:
        rule.bad("missing:create_writer", key, "function not found")
        return
    where = "%s (%s)" % (key, P.bodies[key].file())
    e = flow.Engine(P, opaque={"encoders::add_encoder"})
    ps = e.run(key)
    rule.ran(e, ps, key)
    n = 0
    for p in ps:
        if p.kind != "loop":
            if p.kind == "return" and p.variant_of(p.ret) == "Ok":
                r = field(vfield(p.ret, "Ok"), "0")
                lp = [x for x in p.ev if x.kind == "loop"]
                if r.op not in ("lv", "lve") and not ("create_writer" in str(r)):
                    rule.bad("create_writer:result", where, "returns %s, not the outermost stage" % pp(r))
            continue
        body = after_loop(p, p.x["loop"])
        ad = [x for x in body if x.kind == "call" and x.name == "encoders::add_encoder"]
        if len(ad) != 1:
            rule.bad("create_writer:stage", where, "%d encoders are created for one method" % len(ad))
            continue
        ad = ad[0]
        # the encoder given to add_encoder wraps the previous stage
        prev = [x for x in subterms(ad.vals[0]) if x.op in ("lv", "lve")]
        cells = {lvctx(x)[2:] for x in prev}
        new = {c for c in cells if ad.ret in subterms(p.load(*c))}
        if not new:
            rule.bad("create_writer:wrap", ad.where, "the new stage does not wrap the previous one and replace it: wraps %s" % pp(ad.vals[0]))
        else:
            n += 1
        if p.variant_of(ad.ret) != "Ok":
            rule.bad("create_writer:ignored", ad.where, "an encoder that cannot be created is skipped")
        m = ad.args[1]
        if not any(x.op == "iv" for x in subterms(m)):
            rule.bad("create_writer:method", ad.where, "the stage is built from %s, not from the method of this round" % pp(m))
    if n:
        rule.ok("chain", "create_writer: %d kinds of rounds" % n)


def sites(rule, P):
    """rule (6)"""
    for fn in w.SITES:
        key, ps = w.run(P, rule, fn)
        if key is None:
            rule.bad("missing:" + fn, fn, "function not found")
            continue
        where = "%s (%s)" % (key, P.bodies[key].file())
        n = 0
        for p in ps:
            if p.kind != "return" or p.variant_of(p.ret) != "Ok":
                continue
            S = w.Section(p)
            if not S.cw:
                continue
            n += 1
            if not S.final:
                rule.bad(fn + ":signal", where, "the encoder chain is never told that the stream ended (%s)" % [pp(f) for f in p.facts][-3:])
                continue
            i = S.final[0][0]
            loops = [j for j, e in enumerate(p.ev) if e.kind == "loop" and j > S.at and not any(k > j for k, _ in S.data)]
            data_loops = [q for q in ps if q.kind == "loop" and w.Section(q).data and w.Section(q).data[-1][0] > [j for j, e in enumerate(q.ev) if e.kind == "loop" and e.x == q.x["loop"]][-1]]
            for q in data_loops:
                js = [j for j, e in enumerate(p.ev) if e.kind == "loop" and e.x == q.x["loop"]]
                if js and js[-1] > i:
                    rule.bad(fn + ":order", S.final[0][1].where, "the end-of-stream signal is sent before the data")
                if any(k > [j for j, e in enumerate(q.ev) if e.kind == "loop" and e.x == q.x["loop"]][-1] for k, _ in S_sig(q)):
                    rule.bad(fn + ":order", where, "the end-of-stream signal is sent inside the data loop")
            if S.final[0][1].name != "Write::write":
                rule.bad(fn + ":signal", S.final[0][1].where, "write_all of an empty buffer never reaches the encoder")
            if p.variant_of(S.final[0][1].ret) != "Ok":
                rule.bad(fn + ":ignored", S.final[0][1].where, "a failed end-of-stream write is ignored")
            for j, e in enumerate(p.ev):
                if e.kind == "call" and e.name == "crc32::finalize" and j > S.at and j < i:
                    o = origin(e.vals[0] if e.args[0].op == "r" else e.args[0])
                    if o and o[0] in (S.packed[0],):
                        rule.bad(fn + ":crc-order", e.where, "the packed checksum is taken before the end-of-stream signal")
        if n:
            rule.ok("site", "%s: %d successful paths" % (fn, n))


def S_sig(q):
    return w.Section(q).sig


def check(rule, P):
    im = A.impls(P, A.WRITE, "write")
    found = {}
    for ty, (key, it) in im.items():
        nm = ty.split("::")[-1]
        if nm in ENC or nm in ("CountingWriter", "CompressWrapWriter"):
            res, where = signal(rule, P, ty, key)
            if nm in ENC:
                ENC[nm](rule, P, ty, res, where)
        elif nm == "Encoder":
            enum_dispatch(rule, P, key)
    # every type an Encoder variant holds is one of those
    support(rule, P)
    chain(rule, P)
    sites(rule, P)
    rule.floor("stage", 5)
    rule.floor("drain", 3)
    rule.floor("variant", 3)
    rule.floor("support", 5)
    rule.floor("chain", 1)
    rule.floor("site", 3)
