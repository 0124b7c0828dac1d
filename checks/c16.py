"""LZMA2 reader: what each chunk header makes it do."""
import itertools

from sa.terms import *
from sa import flow
from sa.prov import *
from sa.evalt import value, holds
from sa.steps import System, Stuck

TECHNIQUE = "exhaustive finite evaluation of the extracted transfer function of the chunk header (abstract interpretation of MIR)"
RULE = """The transfer function of LZMA2Reader's chunk-header decoding (bytes read, calls made, fields after it, result) is
extracted from the code and evaluated for every control byte, both values of `dictionary reset needed` and `properties
needed`, every property byte, and sample size words; it must be: 0 ends the stream and reads nothing more; 1 and >= 0xE0
reset the dictionary, clear `dictionary reset needed` and set `properties needed`; any other first chunk is an error; 1 and 2
are uncompressed chunks of big-endian size + 1; 3..0x7F are errors; >= 0x80 are compressed chunks of
((control & 0x1F) << 16) + size + 1 bytes from size + 1 compressed bytes, >= 0xC0 then reads a property byte and makes a new
decoder with its lc, lp, pb (error above 224 or when lc + lp > 4), otherwise missing properties are an error and >= 0xA0
resets the decoder's state, and the range decoder is prepared with the compressed size. The constructor starts with both needs
set. read decodes a header exactly when nothing of the chunk is left, copies or decodes at most what is left, takes what was
flushed from it, and at the end of a chunk fails unless the range decoder is finished (all bytes of the chunk taken, its code zero) and no copy is pending; after the end it
reads nothing more, after an error it returns an error. LZMADecoder::reset restores, and new creates, the initial state
(zero repeats, state 0, every probability one half)."""
NOTE = RULE + " Decoding of symbols is C17, dictionary bounds are C18, size of the window is C19."
LEVEL = "other"
SELF = mk("D", mk("p", "self"))
CLS = "lzma2_reader::LZMA2Reader::<R>::"
OPQ = {"LZDecoder::reset", "LZMADecoder::new", "LZMADecoder::reset", "RangeDecoder::prepare"}


def check(rule, P):
    header(rule, P)
    start(rule, P)
    reading(rule, P)
    finished(rule, P)
    resets(rule, P)
    rule.floor("header", 1024)
    rule.floor("property byte", 256)
    rule.floor("start", 1)
    rule.floor("chunk", 2)
    rule.floor("model", 2)


def loc(P, key):
    return "%s (%s)" % (key, P.bodies[key].file())


def one(rule, P, cls, name):
    ks = [k for k in P.bodies if cls in k and k.split("::")[-1] == name and "#" not in k]
    if len(ks) != 1:
        rule.bad("missing:" + name, "-", "%s%s not found" % (cls, name))
        return None
    return ks[0]


# ---- input stream ----------------------------------------------------------

READS = {"ReadBytesExt::read_u8": 1, "ReadBytesExt::read_i8": 1, "ReadBytesExt::read_u16": 2, "ReadBytesExt::read_u32": 4, "ReadBytesExt::read_u24": 3}


def bind(p, stream):
    """values of what a path reads when the stream holds these bytes; number of bytes it reads; None: it reads something else"""
    env, pos = {}, 0
    for e in p.ev:
        if e.kind != "call":
            continue
        n = READS.get(e.name)
        if n:
            bs = stream[pos:pos + n]
            big = "LittleEndian" not in str(e.callee)
            v = 0
            for b in (bs if big else bs[::-1]):
                v = v << 8 | b
            env[field(vfield(e.ret, "Ok"), "0")] = v
            pos += n
        elif e.name == "Read::read_exact":
            ln = length(e.vals[1])
            if ln.op != "c":
                return None, pos
            o = [mk("out", e.ret, 1), mk("oute", e.vals[1], e.ret, 1)]
            for i in range(ln.a[0]):
                for x in o:
                    env[elem(x, C(i))] = stream[pos + i]
            pos += ln.a[0]
    return env, pos


def failed_read(p):
    return any(e.kind == "call" and (e.name in READS or e.name in ("Read::read_exact", "RangeDecoder::prepare")) and p.variant_of(e.ret) == "Err" for e in p.ev)


def ev(t, env):
    if t is TRUE or t is FALSE:
        return t.a[0]
    v = value(t, env)
    if v is None:
        w = holds(t, env)
        v = None if w is None else int(w)
    return v


def feasible(p, env):
    unknown = []
    for f in p.facts:
        if f.op == "is" or f.op == "not" and f.a[0].op == "is":
            continue
        h = holds(f, env)
        if h is False:
            return False
        if h is None:
            unknown.append(f)
    return True if not unknown else None


def effect(p, env, pos):
    """what a feasible path does"""
    if p.kind == "panic":
        return ("panic",)
    if p.variant_of(p.ret) == "Err":
        return ("error",)
    out = [pos]
    for e in p.ev:
        if e.kind != "call":
            continue
        if e.name == "LZDecoder::reset":
            out.append("dict")
        elif e.name == "LZMADecoder::reset":
            out.append("state")
        elif e.name == "LZMADecoder::new":
            out.append(("new",) + tuple(value(v, env) for v in e.vals))
        elif e.name == "RangeDecoder::prepare":
            out.append(("prepare", value(e.vals[2], env)))
        elif e.name in READS or e.name == "Read::read_exact":
            pass
    st = {}
    for f in ("need_dict_reset", "need_props", "end_reached", "is_lzma_chunk", "uncompressed_size"):
        st[f] = ev(p.load(SELF, (("f", f),)), env)
    return ("ok", tuple(out), st)


def lzma_some(p):
    """is the decoder known to exist on this path"""
    return p.variant_of(mk("f", mk("d", mk("p", "self")), "lzma"))


def expected(c, ndr, npr, a, b, prop):
    """(reads, calls, fields) or 'error'"""
    st = {"need_dict_reset": ndr, "need_props": npr, "end_reached": 0}
    if c == 0:
        return 1, set(), dict(st, end_reached=1)
    calls = set()
    if c >= 0xE0 or c == 1:
        calls.add("dict")
        st["need_dict_reset"], st["need_props"] = 0, 1
    elif ndr:
        return "error"
    if 2 < c < 0x80:
        return "error"
    if c < 0x80:
        return 3, calls, dict(st, is_lzma_chunk=0, uncompressed_size=a + 1)
    st.update(is_lzma_chunk=1, uncompressed_size=((c & 0x1F) << 16) + a + 1)
    n = 5
    if c >= 0xC0:
        lc, lp, pb = prop % 9, prop // 9 % 5, prop // 45
        if prop > 224 or lc + lp > 4:
            return "error"
        calls.add(("new", lc, lp, pb))
        st["need_props"] = 0
        n = 6
    elif st["need_props"]:
        return "error"
    elif c >= 0xA0:
        calls.add("state")
    calls.add(("prepare", b + 1))
    return n, calls, st


def header(rule, P):
    key = one(rule, P, CLS, "decode_chunk_header")
    if not key:
        return
    where = loc(P, key)
    e = flow.Engine(P, opaque=OPQ)
    ps = e.run(key)
    rule.ran(e, ps, key)
    me = mk("d", mk("p", "self"))
    ps = [p for p in ps if not failed_read(p)]
    if any(p.kind == "loop" for p in ps):
        rule.bad("header:loop", where, "the chunk header is decoded by a loop")
        return
    sizes = [(0, 4), (0xFFFF, 0x1234), (0x00FF, 0xFF00), (0x8001, 0xFFFF)]
    for c in range(256):
        cand = {}
        for ndr in (0, 1):
            for npr in (0, 1):
                todo = [(a, b, 93) for a, b in sizes] if c < 0xC0 else [(a, b, pr) for a, b in sizes[:2] for pr in ((93, 0, 224) if c not in (0xC0, 0xE0, 0xFF) else (93,))]
                if c in (0xC0, 0xE0, 0xFF):
                    todo += [(7, 9, pr) for pr in range(256)]
                for a, b, pr in todo:
                    stream = [c, a >> 8, a & 255, b >> 8, b & 255, pr, 0xAA, 0xBB]
                    got = []
                    for p in ps:
                        env, pos = bind(p, stream)
                        if env is None:
                            rule.bad("header:input", where, "the chunk header is read in a way this check does not know")
                            return
                        env = dict(env)
                        env[field(me, "need_dict_reset")], env[field(me, "need_props")] = ndr, npr
                        env[field(me, "end_reached")] = 0
                        env[field(me, "uncompressed_size")] = 0
                        f = feasible(p, env)
                        if f is False:
                            continue
                        if f is None:
                            continue_ = [x for x in p.facts if holds(x, env) is None and x.op != "is" and not (x.op == "not" and x.a[0].op == "is")]
                            rule.bad("header:condition", where, "control 0x%02X: what happens depends on %s" % (c, pp(continue_[0])[:100]))
                            return
                        got.append((p, effect(p, env, pos)))
                    if not judge(rule, where, c, ndr, npr, a, b, pr, got):
                        return
                    if c in (0xC0,) and not ndr and not npr and (a, b) == (7, 9):
                        rule.ok("property byte", pr)
                rule.ok("header", "control %02X, dictionary reset %sneeded, properties %sneeded" % (c, "" if ndr else "not ", "" if npr else "not "))


def judge(rule, where, c, ndr, npr, a, b, pr, got):
    want = expected(c, ndr, npr, a, b, pr)
    desc = "control 0x%02X%s%s%s" % (c, ", dictionary reset needed" if ndr else "", ", properties needed" if npr else "", ", property byte %d" % pr if c >= 0xC0 else "")
    if not got:
        rule.bad("header:none", where, desc + ": nothing is known to happen")
        return False
    for p, g in got:
        if g[0] == "error" and want == "error":
            continue
        if g[0] != "ok" or want == "error":
            rule.bad("header:%s" % ("accepted" if want == "error" else "refused"), where, "%s: the header is %s, it must be %s" % (desc, "an error" if g[0] == "error" else g[0] if g[0] == "panic" else "accepted", "an error" if want == "error" else "accepted"))
            return False
        n, calls, st = want
        _, out, gst = g
        if out[0] != n:
            rule.bad("header:length", where, "%s: %d header bytes are read, the format has %d" % (desc, out[0], n))
            return False
        have = list(out[1:])
        need = set(calls)
        # without a decoder there is no state to reset
        if "state" in need and "state" not in have and lzma_some(p) == "None":
            need.discard("state")
        if set(have) != need and not (set(have) - need <= {"state"} and any(isinstance(x, tuple) and x[0] == "new" for x in need)):
            rule.bad("header:calls", where, "%s: done: %s; prescribed: %s" % (desc, have, sorted(map(str, need))))
            return False
        for f, v in st.items():
            if gst.get(f) != v:
                rule.bad("header:" + f, where, "%s: %s is %s afterwards, it must be %s" % (desc, f, gst.get(f), v))
                return False
    return True


# ---- construction and reading ----------------------------------------------

def start(rule, P):
    key = one(rule, P, CLS, "new")
    if not key:
        return
    e = flow.Engine(P, opaque={"LZDecoder::new", "RangeDecoder::new_buffer"})
    ps = e.run(key)
    rule.ran(e, ps, key)
    n = 0
    for p in ps:
        if p.kind != "return":
            continue
        r = p.ret
        f = lambda x: field(r, x)
        pre = next((mk("p", nm) for t, nm in P.bodies[key].locals[1:4] if "Option" in t), None)
        nodict = p.variant_of(pre) == "None"
        d = decided(p, f("need_dict_reset"))
        if nodict and not (f("need_dict_reset") is TRUE or d is True):
            rule.bad("start:dict", loc(P, key), "a reader without preset dictionary starts without needing a dictionary reset")
        elif not (f("need_props") is TRUE):
            rule.bad("start:props", loc(P, key), "a reader starts without needing properties")
        elif f("end_reached") is not FALSE or not isc(f("uncompressed_size"), 0):
            rule.bad("start:state", loc(P, key), "a reader starts inside or after a chunk")
        else:
            n += nodict
    if n:
        rule.ok("start", "both needs are set")
    else:
        rule.bad("start:none", loc(P, key), "no way to start without a preset dictionary")


WATCH = ("uncompressed_size", "is_lzma_chunk", "end_reached", "error")


def counted(p, t, inc):
    """t counts what came out: 0 before the loop, `inc` more after each iteration (inc None: none on this path yet)"""
    lv = t if inc is None else sub(t, inc)
    for x in p.ev:
        if x.kind == "loop":
            for h in x.havoc:
                if h[2] is lv:
                    return isc(h[3], 0) and (h, x)
    return isc(lv, 0) and (None, None)


def reading(rule, P):
    key = one(rule, P, CLS, "read_decode")
    if not key:
        return
    where = loc(P, key)
    buf = mk("d", mk("p", P.bodies[key].locals[2][1]))
    nbuf = length(buf)
    hdr = "decode_chunk_header"
    e = flow.Engine(P, opaque={k for k in P.bodies if k.endswith(hdr)} | {"LZMADecoder::decode", "LZDecoder::copy_uncompressed", "LZDecoder::set_limit", "LZDecoder::flush", "LZDecoder::has_pending", "RangeDecoder::is_finished"},
                    watch=[(SELF, (("f", f),)) for f in WATCH])
    ps = e.run(key)
    rule.ran(e, ps, key)
    me = mk("d", mk("p", "self"))
    seen = {"copy": 0, "lzma": 0, "end": 0, "header": 0}
    counters = []
    for p in ps:
        if p.kind == "panic":
            continue
        calls = [x for x in p.ev if x.kind == "call" and x.name]
        hd = [x for x in calls if x.name.endswith(hdr)]
        fl = [x for x in calls if x.name == "LZDecoder::flush"]
        cp = [x for x in calls if x.name in ("LZDecoder::copy_uncompressed", "LZMADecoder::decode")]
        fin = [x for x in calls if x.name == "RangeDecoder::is_finished"]
        pen = [x for x in calls if x.name == "LZDecoder::has_pending"]
        bad = is_err(p)
        if len(hd) > 1 or len(fl) > 1 or len(cp) > 1:
            rule.bad("read:order", where, "more than one chunk step in one iteration")
            continue
        for x in hd:
            seen["header"] += 1
            if not p.entails(eqi(x.snap[0], ZERO)):
                rule.bad("read:early", where, "a chunk header is decoded while data of the last chunk can be left")
        if hd or cp or fl:
            if decided(p, field(me, "end_reached")) is not False:
                rule.bad("read:after", where, "data is read although the end was reached before")
            if p.variant_of(field(me, "error")) != "None":
                rule.bad("read:error", where, "data is read although an error was returned before")
        if cp and not hd and not p.entails(ne0(cp[0].snap[0])) and not p.entails(ge0(sub(cp[0].snap[0], ONE))):
            rule.bad("read:late", where, "data is decoded although nothing of the chunk is left and no header is decoded")
        for x in cp:
            us, lz = x.snap[0], x.snap[1]
            if x.name == "LZDecoder::copy_uncompressed":
                seen["copy"] += 1
                if decided(p, lz) is not False:
                    rule.bad("read:kind", where, "data is copied although the chunk can be compressed")
                if not p.entails(ge0(sub(us, x.vals[2]))):
                    rule.bad("read:limit", where, "more can be copied than is left of the chunk (%s)" % pp(x.vals[2])[:60])
            else:
                seen["lzma"] += 1
                if decided(p, lz) is not True:
                    rule.bad("read:kind", where, "data is decoded although the chunk can be uncompressed")
                lim = [y for y in calls[:calls.index(x)] if y.name == "LZDecoder::set_limit"]
                if not lim or not p.entails(ge0(sub(us, lim[-1].vals[1]))):
                    rule.bad("read:limit", where, "more can be decoded than is left of the chunk")
        if bad:
            continue
        for x in cp:
            if p.variant_of(x.ret) != "Ok" or not fl or calls.index(fl[0]) < calls.index(x):
                rule.bad("read:step", where, "a decoding step that failed or whose bytes are not taken out goes on")
        end = p.load(SELF, (("f", "end_reached"),))
        for x in hd:
            if p.variant_of(x.ret) != "Ok":
                rule.bad("read:header", where, "reading goes on after a chunk header that is an error")
        if p.kind == "loop" and hd and decided(p, end) is not False:
            rule.bad("read:end", where, "reading can go on after the end")
        if p.kind == "loop" and not fl:
            rule.bad("read:skip", where, "an iteration that takes nothing out of the dictionary")
        out = None
        if fl:
            x = fl[0]
            out = x.ret
            u1 = p.load(SELF, (("f", "uncompressed_size"),))
            z = sub(x.snap[0], out)
            if u1 is not z and not p.entails(eqi(u1, z)):
                rule.bad("read:left", where, "after n bytes came out, %s is left of the chunk" % pp(u1)[:80])
            if not p.entails(ne0(z)) and not p.entails(ge0(sub(z, ONE))):
                if not fin or decided(p, fin[-1].ret) is not True or not pen or decided(p, pen[-1].ret) is not False:
                    rule.bad("read:end", where, "a chunk can end with the range decoder unfinished or a copy pending")
                seen["end"] += 1
            # where the bytes go
            o = x.args[1]
            if o.op == "r" and o.a[1] is mk("D", mk("p", P.bodies[key].locals[2][1])) and o.a[2] == ():
                at = x.vals[2]
            elif o.op == "r" and o.a[1] is mk("D", mk("p", P.bodies[key].locals[2][1])) and len(o.a[2]) == 1 and o.a[2][0][0] == "s" and isc(x.vals[2], 0):
                at = o.a[2][0][1]
            else:
                at = None
            c = at is not None and counted(p, at, None)
            if not c:
                rule.bad("read:place", where, "bytes are put at %s of the buffer, which does not count what came out before" % (pp(at)[:60] if at is not None else pp(o)[:60]))
            else:
                counters.append(c)
        if p.kind == "return" and p.variant_of(p.ret) == "Ok":
            n = field(vfield(p.ret, "Ok"), "0")
            c = counted(p, n, out)
            if not c:
                rule.bad("read:count", where, "%s is returned, which does not count what came out" % pp(n)[:80])
            else:
                counters.append(c)
            if hd and not cp:
                if decided(p, end) is not True:
                    rule.bad("read:stop", where, "reading stops after a chunk header that does not end the stream")
            elif decided(p, field(me, "end_reached")) is True or p.entails(eqi(nbuf, ZERO)):
                pass
            elif not full(p, nbuf) and not p.entails(ge0(sub(n, ONE))):
                rule.bad("read:stop", where, "0 can be returned although the end is not reached and the buffer is not empty")
    for h, x in counters:
        if h is not None:
            for q in ps:
                if q.kind == "loop" and q.x["loop"] == x.x:
                    fl = [y for y in q.ev if y.kind == "call" and y.name == "LZDecoder::flush"]
                    if not fl or sub(q.load(h[0], h[1]), h[2]) is not fl[-1].ret:
                        rule.bad("read:sum", where, "the number of bytes that came out is not kept")
    for k in ("copy", "lzma", "end", "header"):
        if not seen[k]:
            rule.bad("read:" + k, where, "no path that handles `%s`" % k)
    rule.ok("chunk", "read_decode: %d copies, %d decodes, %d chunk ends" % (seen["copy"], seen["lzma"], seen["end"]))
    errors(rule, P, key)


def full(p, nbuf):
    """the loop ended because the buffer is full"""
    for x in p.ev:
        if x.kind == "loop":
            for h in x.havoc:
                if h[2].op == "lv" and (h[3] is nbuf and p.entails(eqi(h[2], ZERO)) or isc(h[3], 0) and p.entails(ge0(sub(h[2], nbuf)))):
                    return True
    return False


def errors(rule, P, key):
    rk = [k for k in P.bodies if "lzma2_reader::LZMA2Reader" in k and k.endswith("Read>::read")]
    if len(rk) != 1:
        rule.bad("missing:read", "-", "Read::read of LZMA2Reader not found")
        return
    e = flow.Engine(P, opaque={key})
    ps = e.run(rk[0])
    rule.ran(e, ps, rk[0])
    good = 0
    for p in ps:
        cs = [x for x in p.ev if x.kind == "call" and x.name and x.name.endswith("read_decode")]
        if p.kind != "return":
            continue
        if len(cs) != 1:
            rule.bad("read:result", loc(P, rk[0]), "read does not decode once")
            continue
        v, w = p.variant_of(cs[0].ret), p.variant_of(p.ret)
        if v != w:
            rule.bad("read:result", loc(P, rk[0]), "read returns %s where decoding gave %s" % (w, v))
        elif v == "Err":
            if p.variant_of(p.load(SELF, (("f", "error"),))) != "Some":
                rule.bad("read:latch", loc(P, rk[0]), "an error is not remembered")
            else:
                good += 1
        elif p.ret is not cs[0].ret and uncast(field(vfield(p.ret, "Ok"), "0")) is not field(vfield(cs[0].ret, "Ok"), "0"):
            rule.bad("read:result", loc(P, rk[0]), "read returns another count than was decoded")
    if good:
        rule.ok("chunk", "errors are remembered")


def is_err(p):
    return p.kind == "return" and p.variant_of(p.ret) == "Err"


# ---- initial state ---------------------------------------------------------

def finished(rule, P):
    """a compressed chunk is used up exactly when all its bytes were taken and nothing is left in the range decoder"""
    key = one(rule, P, "range_dec::RangeDecoder::<", "is_finished")
    if not key:
        return
    S = System(P, key, (), rule)
    me = mk("d", mk("p", "self"))
    inner = field(me, "inner")
    for n, pos, code in itertools.product((1, 4, 59), (0, 1, 3, 4, 58, 59), (0, 1, 0x80000000, 0xFFFFFFFF)):
        if pos > n:
            continue
        try:
            p, env = S.run({field(inner, "pos"): pos, length(field(inner, "buf")): n, field(me, "code"): code}, lambda e, env: None)
        except Stuck as e:
            rule.bad("finished", loc(P, key), "undecided: %s" % e)
            return
        v = value(p.ret, env) if p.kind == "return" else None
        if v is None or bool(v) is not (pos == n and code == 0):
            rule.bad("finished", loc(P, key), "with %d of %d bytes taken and the code %#x, a chunk counts as %s" % (pos, n, code, {None: "undecided", 0: "not used up"}.get(v, "used up")))
            return
        rule.ok("finished", "%d/%d %#x" % (pos, n, code))


def resets(rule, P):
    for name in ("new", "reset"):
        key = one(rule, P, "decoder::LZMADecoder::", name)
        if not key:
            continue
        e = flow.Engine(P)
        ps = e.run(key)
        rule.ran(e, ps, key)
        rets = [p for p in ps if p.kind == "return"]
        if not rets:
            rule.bad("model:" + name, loc(P, key), "%s does not return" % name)
            continue
        for p in rets:
            v = p.ret if name == "new" else p.load(SELF)
            why = initial(p, ps, v)
            if why:
                rule.bad("model:" + name, loc(P, key), "after %s, %s" % (name, why))
                break
        else:
            rule.ok("model", name)


TABLES = {"coder": ("is_match", "is_rep", "is_rep0", "is_rep1", "is_rep2", "is_rep0_long", "dist_slots", "dist_special", "dist_align"),
          "match_len_decoder": ("choice", "low", "mid", "high"), "rep_len_decoder": ("choice", "low", "mid", "high")}


def initial(p, ps, v):
    c = field(v, "coder")
    r = field(c, "reps")
    for i in range(4):
        if not isc(elem(r, C(i)), 0):
            return "repeat distance %d is %s" % (i, pp(elem(r, C(i)))[:40])
    if not isc(field(field(c, "state"), "state"), 0):
        return "the state is %s" % pp(field(c, "state"))[:40]
    for owner, names in TABLES.items():
        for n in names:
            t = field(field(v, owner), n)
            if not half(p, ps, t):
                return "%s.%s is %s" % (owner, n, pp(t)[:160])
    s = field(field(v, "literal_decoder"), "sub_decoders")
    if not half(p, ps, s):
        return "the literal probabilities are %s" % pp(s)[:160]
    return None


def half(p, ps, t, depth=0):
    """every probability in the (nested) table t is one half"""
    if depth > 12:
        return False
    go = lambda x: half(p, ps, x, depth + 1)
    if isc(t, 0x400):
        return True
    if t.op == "rep":
        return go(t.a[0])
    if t.op == "a":
        return bool(t.a[3]) and all(go(x) for x in t.a[3])
    if t.op == "u":
        # a struct some of whose fields were written: the fields that hold the table
        return go(field(field(t, "coder"), "probs"))
    if t.op == "lve":
        ctx, bb, root, path = lvctx(t)
        here = lambda x: (x.ctx, x.bb) == (ctx, bb) or "%s@%d" % (x.ctx, x.bb) == ctx
        qs = [q for q in ps if q.kind == "loop" and q.x["loop"] in ((ctx, bb), ("it", ctx))]
        if not qs or not any(x.kind == "next" and x.name == "done" and here(x) for x in p.ev):
            return False
        for q in qs:
            it = [x for x in q.ev if x.kind == "next" and x.name == "item" and here(x)]
            v = q.load(root, path)
            if len(it) != 1 or v.op != "ue" or v.a[0] is not t:
                return False
            if not whole_table(q, it[0], v.a[1], t, root, path) or not half(q, ps, v.a[2], depth + 1):
                return False
        return True
    return False


def whole_table(q, x, idx, t, root, path):
    """the loop visits, as idx, every index of t"""
    i = x.vals[0]
    while i.op == "it" and i.a[0] in ("enumerate", "rev", "deref"):
        i = i.a[1]
    if i.op == "it" and i.a[0] == "seq":
        c = i.a[1]
        return idx is x.vals[1] and (c.op == "r" and c.a[1] is root and c.a[2] == path)
    if i.op == "it" and i.a[0] == "range":
        return isc(i.a[1], 0) and (idx is x.vals[1]) and q.entails(ge0(sub(i.a[2], length(t))))
    return False

