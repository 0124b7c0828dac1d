"""LZMA2 writer: the chunk sequence it emits, and the encoder's window behind it."""
from sa.terms import *
from sa.prov import *
from sa.evalt import value, holds, element
from sa.steps import System, Stuck, place

TECHNIQUE = "evaluation of extracted transition systems over finite domains (abstract interpretation of MIR, constant domain), compared with a reference decoder of the chunk protocol"
RULE = """The transition systems of the LZMA2 writer's chunk functions are extracted (path summaries, one per way round each loop)
and followed for every sequence of up to three chunk kinds (compressed small / up to the size limits, stored small / of more
than 64 KiB) from the state the constructor leaves, with and without a preset dictionary: every header must be accepted by a
reference of the chunk protocol in the state the decoder is in (dictionary reset first and only once, properties before the
first compressed chunk, a state reset in the header exactly when the encoder's model was reset, sizes equal to the bytes that
follow), the bytes that follow must be the range coder's buffer, or the window bytes that were not emitted yet, in order; the
pending count goes down by exactly the emitted size and the coder starts afresh. Symbols are only encoded while the worst case
of one more symbol still fits a chunk. Finishing encodes and emits until nothing is pending, then writes one zero byte, once;
writing hands every byte to the window once, counts it as pending and emits a chunk whenever the encoder says so. The window
keeps, when it moves, at least the dictionary and the longest chunk that may have to be stored, moves by a multiple of 16 and
shifts all positions by the same amount; filling it copies exactly the bytes it reports."""
NOTE = RULE + " The reader of the same protocol is C16; the bits of a symbol are C17."
LEVEL = "other"

W = "lzma2_writer::LZMA2Writer::<W>"
LIM_U, LIM_C = 1 << 21, 1 << 16


def check(rule, P):
    for f in (chunks, limits, ending, writing, window):
        try:
            f(rule, P)
        except Stuck as e:
            rule.bad("undecided:" + f.__name__, "lzma-rust/src/enc", "%s: %s" % (f.__name__, e))
    rule.floor("chunk", 60)
    rule.floor("limit", 6)
    rule.floor("end", 4)
    rule.floor("write", 4)
    rule.floor("window", 8)


def find(rule, P, owner, name):
    ks = [k for k in P.bodies if owner in k and k.split("::")[-1] == name and "#" not in k and "{" not in k]
    if len(ks) != 1:
        rule.bad("missing:" + name, "lzma-rust/src/enc", "%s::%s not found" % (owner.split("::")[-2] if "<" in owner else owner, name))
        return None
    return ks[0]


def named(P, *suffixes):
    return {k for k in P.bodies if "#" not in k and "{" not in k and any(k.endswith(s) for s in suffixes)}


def at(P, key):
    return "%s (%s)" % (key, P.bodies[key].file())


def last(e):
    return e.name.split("::")[-1]


def fp(base, *names):
    for n in names:
        base = field(base, n)
    return base


def where_of(t):
    """names of the fields the place a content was read from was reached through, innermost last"""
    out = []
    while True:
        if t.op == "f":
            out.append(t.a[1])
            t = t.a[0]
        elif t.op in ("d", "sl", "ue", "usl", "v"):
            t = t.a[0]
        elif t.op in ("out", "lv"):
            path = t.a[3] if len(t.a) > 3 else ()
            out += [x[1] for x in reversed(path) if x[0] == "f"]
            return out[::-1]
        elif t.op == "oute":
            t = t.a[0]
        else:
            return out[::-1]


class Emit:
    """What a writer function writes: concrete bytes, ranges of the coder's buffer and of the window"""

    def __init__(self):
        self.out, self.bad = [], None

    def put(self, t, env):
        lo, n, b = 0, value(length(t), env), t
        if n is None:
            self.bad = self.bad or "writes data of unknown length"
            return None
        if t.op == "sl":
            b, lo = t.a[0], value(t.a[1], env)
        tail = where_of(b)[-2:]
        if tail == ["inner", "buf"]:
            self.out.append(("rc", lo, n))
        elif tail == ["data", "buf"]:
            self.out.append(("win", lo, n))
        else:
            for i in range(n):
                v = element(t, i, env)
                if v is None:
                    self.bad = self.bad or "writes a byte that could not be determined (%s)" % pp(elem(t, C(i)))[:80]
                    return n
                self.out.append(v & 255)
        return n


# ---- chunks ----------------------------------------------------------------

def flags_of(P):
    a = [v for k, v in P.adts.items() if k.endswith("lzma2_writer::LZMA2Writer")]
    fs = a[0]["variants"][0]["fields"] if a else []
    return [f["name"] if isinstance(f, dict) else f[0] for f in fs if (f["ty"] if isinstance(f, dict) else f[1]) == "bool"]


def model_resets(P):
    return named(P, "::LZMACoder::reset", "::LiteralEncoder::reset", "::LengthEncoder::reset", "LZMAEncoderModes as lzma_rust::enc::encoder::LZMAEncoderTrait>::reset")


def chunks(rule, P):
    key = find(rule, P, W, "write_chunk")
    new = find(rule, P, W, "new")
    if key is None or new is None:
        return
    model = model_resets(P)
    S = System(P, key, model | named(P, "RangeEncoder::<W>::finish"), rule, max_paths=20000)
    N = System(P, new, named(P, "::LZMAEncoder::new", "::LZEncoder::set_preset_dict", "::RangeEncoder::<lzma_rust::enc::range_enc::RangeEncoderBuffer>::new_buffer", "::get_props"), rule)
    flags = flags_of(P)
    if len(flags) < 3:
        return rule.bad("flags", at(P, key), "the writer's flags were not found")
    kinds = {
        "compressed": (5, 100, 0), "compressed-big": (LIM_C, LIM_U, 0), "compressed-mid": (0x1234, 0x12345, 3), "stored": (50, 50, 2), "stored-1": (6, 1, 0),
        "stored-64K": (LIM_C - 5, LIM_C, 0), "stored-more": (LIM_C - 1, LIM_C, 40),
    }
    seqs = [(a, b, c) for a in kinds for b in ("compressed", "stored", "stored-more") for c in ("compressed", "stored")]
    for preset in (0, 1):
        start = begin(rule, P, N, preset, flags)
        if start is None:
            return
        for seq in seqs:
            msg = sequence(P, S, start, preset, [kinds[k] for k in seq], flags, model)
            if msg:
                rule.bad("chunk", at(P, key), "%s%s: %s" % (", then ".join(seq), " after a preset dictionary" if preset else "", msg))
                return
            rule.ok("chunk", "%s preset=%d" % (",".join(seq), preset))


def begin(rule, P, N, preset, flags):
    opts = mk("d", mk("p", N.param(1)))
    pd = field(opts, "preset_dict")
    env = {mk("variant", pd): "Some" if preset else "None", field(opts, "dict_size"): 1 << 16}

    def oracle(e, env):
        return None
    p, env = N.run(env, oracle)
    if p.kind != "return":
        rule.bad("new", at(P, N.key), "the constructor does not return")
        return None
    r = p.ret
    st = {}
    for f in flags + ["pending_size"]:
        st[f] = value(field(r, f), env)
    if None in st.values():
        rule.bad("new", at(P, N.key), "the constructor leaves %s undetermined" % [k for k, v in st.items() if v is None])
        return None
    pre = [e for e in p.ev if e.kind == "call" and last(e) == "set_preset_dict"]
    if bool(pre) != bool(preset):
        rule.bad("preset", at(P, N.key), "the preset dictionary is %s" % ("not used" if preset else "made up"))
        return None
    pr = field(r, "props")
    o = pr
    if not (o.op == "call" and o.a[0].split("::")[-1] == "get_props"):
        rule.bad("props", at(P, N.key), "the property byte does not come from the options: %s" % pp(pr)[:80])
        return None
    return st


class Decoder:
    """what the receiver of the chunks knows"""

    def __init__(self, preset):
        self.need_dict, self.need_props, self.fresh = not preset, True, False


def sequence(P, S, start, preset, sizes, flags, model):
    st = dict(start)
    dec = Decoder(preset)
    root = mk("D", mk("p", S.param(0)))
    me = mk("d", mk("p", S.param(0)))
    PROPS, RP = 93, 5000000
    enc_fresh = True       # the encoder's model is in its initial state at the start of the chunk
    for comp, unc, ra in sizes:
        out = Emit()
        resets = []
        data0 = {"uncompressed_size": unc, "read_ahead": ra - 1}
        pending = 4000000
        env = {field(me, "props"): PROPS, field(me, "pending_size"): pending}
        for f in flags:
            env[field(me, f)] = st[f]

        def bindall(base, env):
            """the writer's content after an opaque call that was given all of it"""
            env[fp(base, "lzma", "lz", "data", "read_pos")] = RP

        def enc(lz, env):
            for k, v in data0.items():
                env[fp(lz, "data", k)] = v
            env[fp(lz, "lz", "data", "read_pos")] = RP
            env[length(fp(lz, "lz", "data", "buf"))] = RP + 300
        enc(field(me, "lzma"), env)
        env[length(fp(me, "rc", "inner", "buf"))] = LIM_C
        env[fp(me, "rc", "inner", "pos")] = comp - 5

        def oracle(e, env):
            n = last(e)
            if e.x in model or n == "reset" and e.kind == "call" and "write" not in n:
                pl = place(e.args[0], env) if e.args else None
                resets.append((pl[-1] if pl and len(pl) > 1 else pl[0] if pl else "?"))
                return 0
            if n == "finish":
                b = mk("out", e.ret, 0, e.args[0].a[1], e.args[0].a[2]) if e.args and e.args[0].op == "r" else None
                if b is not None:
                    env[fp(b, "inner", "pos")] = comp
                    env[length(fp(b, "inner", "buf"))] = LIM_C
                return 0
            if n in ("write_all", "write"):
                if not to_inner(S, e):
                    out.bad = out.bad or "something is written that does not go to the output (%s)" % e.where
                return out.put(e.vals[1], env)
            if n == "write_u8":
                out.out.append(value(e.vals[1], env))
                return 0
            return 0
        p, env = S.run(env, oracle)
        if p.kind == "panic":
            return "panics"
        if p.variant_of(p.ret) != "Ok" and variant(p.ret) != "Ok":
            return "fails"
        if out.bad:
            return out.bad
        was_reset = {"coder", "literal_encoder", "match_len_encoder", "rep_len_encoder"} <= set(map(str, resets))
        some_reset = bool(resets)
        if some_reset and not was_reset:
            return "resets only part of the encoder's model (%s)" % ", ".join(sorted(set(map(str, resets))))
        total = unc + (ra if was_reset else 0)
        # the receiver
        o, done, stored, lz = list(out.out), 0, False, False
        while o:
            c = o.pop(0)
            if not isinstance(c, int):
                return "data without a header"
            if c in (1, 2):
                if len(o) < 3 or not all(isinstance(x, int) for x in o[:2]) or isinstance(o[2], int) or o[2][0] != "win":
                    return "a stored chunk does not consist of its header and window bytes: %s" % (o[:4],)
                n = (o[0] << 8 | o[1]) + 1
                _, lo, ln = o[2]
                o = o[3:]
                if dec.need_dict and c != 1:
                    return "the first chunk does not reset the dictionary"
                if not dec.need_dict and c == 1:
                    return "a later stored chunk resets the dictionary"
                if ln != n:
                    return "a stored chunk of %d bytes says it has %d" % (ln, n)
                if lo != RP + 1 - total + done:
                    return "a stored chunk starts %d bytes off" % (lo - (RP + 1 - total + done))
                done += n
                dec.need_dict = False
                stored = True
            elif c >= 0x80:
                lev = c >> 5 & 3
                k = 5 if lev >= 2 else 4
                if len(o) < k or not all(isinstance(x, int) for x in o[:k]):
                    return "a compressed chunk with control byte 0x%02X has a header of %d bytes" % (c, 1 + len([x for x in o[:k] if isinstance(x, int)]))
                u = ((c & 31) << 16 | o[0] << 8 | o[1]) + 1
                n = (o[2] << 8 | o[3]) + 1
                pr = o[4] if lev >= 2 else None
                o = o[k:]
                if not o or isinstance(o[0], int) or o[0][0] != "rc":
                    return "the header of a compressed chunk (control byte 0x%02X) is not followed by the coder's bytes" % c
                _, lo, ln = o.pop(0)
                if dec.need_dict and lev != 3:
                    return "the first chunk does not reset the dictionary (control byte 0x%02X)" % c
                if not dec.need_dict and lev == 3:
                    return "a later chunk resets the dictionary (control byte 0x%02X)" % c
                if dec.need_props and lev < 2:
                    return "the first compressed chunk does not set the properties (control byte 0x%02X)" % c
                if pr is not None and pr != PROPS:
                    return "the property byte of a chunk is %s" % pr
                if (lev > 0) != enc_fresh:
                    return "control byte 0x%02X although the encoder's model was %sreset before the chunk" % (c, "" if enc_fresh else "not ")
                if (u, n) != (unc, comp) or (lo, ln) != (0, comp):
                    return "a chunk of %d bytes in %d says it has %d in %d and is followed by %d of the coder" % (unc, comp, u, n, ln)
                dec.need_dict = dec.need_props = False
                done += u
                lz = True
            else:
                return "control byte %d" % c
        if stored and lz:
            return "one chunk is emitted in two forms"
        if stored and not was_reset:
            return "the encoder's model is not reset when its chunk is stored"
        if lz and was_reset:
            return "the model is reset after a compressed chunk"
        if done != total:
            return "%d of %d bytes are emitted" % (done, total)
        enc_fresh = stored
        ps = value(p.load(root, (("f", "pending_size"),)), env)
        if ps != pending - total:
            return "the pending size goes down by %s, not %d" % (None if ps is None else pending - ps, total)
        u = value(p.load(root, tuple(("f", n) for n in ("lzma", "data", "uncompressed_size"))), env)
        r = value(p.load(root, tuple(("f", n) for n in ("lzma", "data", "read_ahead"))), env)
        if u != 0:
            return "the size of the next chunk starts at %s" % u
        if r != (-1 if was_reset else ra - 1):
            return "the read ahead is %s after the chunk" % r
        for n, v in (("low", 0), ("range", 0xFFFFFFFF), ("cache", 0), ("cache_size", 1)):
            x = value(p.load(root, (("f", "rc"), ("f", n))), env)
            if x != v:
                return "the range coder starts the next chunk with %s = %s" % (n, x)
        if value(p.load(root, (("f", "rc"), ("f", "inner"), ("f", "pos"))), env) != 0:
            return "the coder's buffer is not emptied"
        for f in flags:
            st[f] = value(p.load(root, (("f", f),)), env)
            if st[f] is None:
                return "%s is not determined" % f
    return None


def to_inner(S, e):
    pl = place(e.args[0], {}) if e.args and e.args[0].op == "r" else None
    return pl is not None and pl[:2] == (S.param(0), "inner")



# ---- when symbols are encoded ----------------------------------------------

def limits(rule, P):
    key = find(rule, P, "lzma_rust::enc::encoder::LZMAEncoder", "encode_for_lzma2")
    if key is None:
        return
    S = System(P, key, named(P, "LZMAEncoder::encode_symbol", "LZMAEncoder::encode_init"), rule)
    me, rc = mk("d", mk("p", S.param(0))), mk("d", mk("p", S.param(1)))
    U, Cc = LIM_U - 273, LIM_C - 26
    # (started, size so far, coder bytes so far incl. what it still holds, answers of the symbol encoder with the sizes after it)
    runs = [
        ("free", 1, 0, 5, [(1, U + 1, 10)], 1, 1), ("free", 1, 0, 5, [(1, 1, Cc + 1)], 1, 1), ("free", 1, 0, 5, [(0, 0, 5)], 1, 0),
        ("free", 1, 7, 5, [(1, 9, 6), (1, 11, 7), (0, 11, 7)], 3, 0), ("free", 1, 7, 5, [(1, 9, 6), (1, 11, 7), (1, LIM_U, 9)], 3, 1),
        ("uncompressed", 1, U + 1, 5, [], 0, 1), ("uncompressed", 1, LIM_U, 5, [], 0, 1), ("compressed", 1, 100, Cc + 1, [], 0, 1), ("compressed", 1, 100, LIM_C, [], 0, 1),
        ("start", 0, 0, 5, [(0, 0, 5)], 1, 0), ("start", 0, 0, 5, [(1, 1, 6), (0, 1, 6)], 2, 0), ("start", 0, 0, 5, [(1, 1, 6), (1, U + 1, 9)], 2, 1),
    ]
    for name, started, unc, held, answers, ncalls, want in runs:
        for split in (1, 3):
            env = {}

            def enc(b, u, env):
                env[fp(b, "data", "uncompressed_size")] = u
                env[fp(b, "lz", "data", "read_pos")] = 100 if started or calls else -1

            def coder(b, h, env):
                k = min(split, h - 4)
                env[fp(b, "inner", "pos")] = h - 4 - k
                env[field(b, "cache_size")] = k
            calls = []
            enc(me, unc, env)
            coder(rc, held, env)

            def oracle(e, env):
                n = last(e)
                if n not in ("encode_symbol", "encode_init"):
                    return 0
                calls.append(n)
                k = len(calls) - 1
                r, u, h = answers[k] if k < len(answers) else (1, LIM_U, LIM_C)
                for i, a in enumerate(e.args):
                    if a.op == "r" and a.a[1] is mk("D", mk("p", S.param(0))):
                        enc(mk("out", e.ret, i, a.a[1], a.a[2]), u, env)
                    elif a.op == "r" and a.a[1] is mk("D", mk("p", S.param(1))):
                        coder(mk("out", e.ret, i, a.a[1], a.a[2]), h, env)
                return r
            p, env = S.run(env, oracle)
            v = value(field(vfield(p.ret, "Ok"), "0"), env) if p.kind == "return" else None
            if len(calls) != ncalls or v != want or calls and (calls[0] == "encode_init") != (not started) or "encode_init" in calls[1:]:
                rule.bad("limit:" + name, at(P, key), "with %d bytes in the chunk and %d from the coder, %d symbol(s) are encoded (%s expected) and the answer is %s: %s" % (
                    unc, held, len(calls), ncalls, v, "a chunk may exceed what its header can say" if name.endswith("pressed") and calls else "encoding does not go on, stop or report as it must"))
                return
        rule.ok("limit", name)


# ---- end of the stream, writing --------------------------------------------

def steps_of(P, rule, key):
    op = named(P, "::LZMA2Writer::<W>::write_chunk", "LZMAEncoder::encode_for_lzma2", "LZEncoder::set_finishing", "LZEncoder::set_flushing", "LZEncoder::fill_window")
    return System(P, key, op, rule, max_paths=20000)


def follow(S, env, me, pend, encs, fills, trace):
    """oracle: sizes still pending after each chunk, answers of the encoder, bytes taken by the window"""
    st = {"p": list(pend), "e": list(encs), "f": list(fills), "n": 0}
    buf = mk("d", mk("p", S.param(1))) if S.P.bodies[S.key].argc > 1 else None

    def again(base, env, pending):
        env[field(base, "pending_size")] = pending
        env[field(base, "finished")] = 0

    def oracle(e, env):
        n = last(e)
        if n == "write_chunk":
            trace.append(("chunk", value(field(e.vals[0], "pending_size"), env)))
            again(mk("out", e.ret, 0, e.args[0].a[1], e.args[0].a[2]), env, st["p"].pop(0) if st["p"] else 0)
        elif n == "encode_for_lzma2":
            trace.append(("encode",))
            return st["e"].pop(0) if st["e"] else 1
        elif n == "set_finishing":
            trace.append(("finishing",))
        elif n == "fill_window":
            v = e.vals[1]
            trace.append(("fill", element(v, 0, env), value(length(v), env)))
            return None if not st["f"] else setv(env, e.ret, st["f"].pop(0))
        elif n == "write_u8":
            trace.append(("byte", value(e.vals[1], env)))
        elif n in ("write_all", "write"):
            ln = value(length(e.vals[1]), env)
            if ln:
                trace.extend(("byte", element(e.vals[1], i, env)) for i in range(ln))
            else:
                trace.append(("signal",))
            return ln
        elif n == "flush":
            trace.append(("flush",))
        return 0
    return oracle


def setv(env, t, v):
    env[t] = v
    return None


def ending(rule, P):
    for name, owner in (("finish", W), ("write", "lzma2_writer::LZMA2Writer<W> as std::io::write::Write>")):
        key = find(rule, P, owner, name)
        if key is None:
            continue
        S = steps_of(P, rule, key)
        me = mk("d", mk("p", S.param(0)))
        root = mk("D", mk("p", S.param(0)))
        for fin in (0, 1):
            for pend in ((), (0,), (700, 0), (900, 400, 0)):
                env = {field(me, "finished"): fin, field(me, "pending_size"): 1000 if pend else 0}
                if name == "write":
                    env[length(mk("d", mk("p", S.param(1))))] = 0
                tr = []
                p, env = S.run(env, follow(S, env, me, pend, (), (), tr))
                good = p.kind == "return" and (p.variant_of(p.ret) or variant(p.ret)) == "Ok"
                t = [x for x in tr if x[0] != "signal"]
                if fin:
                    if t:
                        rule.bad("end:twice", at(P, key), "a finished stream is continued: %s" % t)
                        return
                    rule.ok("end", "%s of a finished stream" % name)
                    continue
                want = [("encode",), ("chunk", None)] * len(pend) + [("byte", 0)]
                got = [("chunk", None) if x[0] == "chunk" else x for x in t if x[0] != "finishing"]
                k = [i for i, x in enumerate(tr) if x[0] == "finishing"]
                if not good or got != want or pend and (not k or k[0] > tr.index(("encode",))):
                    rule.bad("end", at(P, key), "with %s pending the stream is ended by %s%s" % (env.get(field(me, "pending_size")), t, "" if good else ", and fails"))
                    return
                if value(p.load(root, (("f", "finished"),)), env) != 1:
                    rule.bad("end:flag", at(P, key), "the stream is not marked as finished")
                    return
                rule.ok("end", "%s, %d chunk(s)" % (name, len(pend)))


def writing(rule, P):
    key = find(rule, P, "lzma2_writer::LZMA2Writer<W> as std::io::write::Write>", "write")
    if key is None:
        return
    S = steps_of(P, rule, key)
    me, root = mk("d", mk("p", S.param(0))), mk("D", mk("p", S.param(0)))
    buf = mk("d", mk("p", S.param(1)))
    for n, fills, encs in ((10, (10,), (0,)), (10, (10,), (1,)), (10, (4, 6), (0, 0)), (10, (4, 6), (1, 0)), (10, (1, 8, 1), (1, 1, 0)), (1, (1,), (0,))):
        env = {field(me, "finished"): 0, field(me, "pending_size"): 500, length(buf): n}
        for i in range(n):
            env[elem(buf, C(i))] = 100 + i
        tr = []
        after = [300, 200, 100]
        p, env = S.run(env, follow(S, env, me, list(after), encs, fills, tr))
        want, off, pend, k = [], 0, 500, 0
        for u, e in zip(fills, encs):
            want += [("fill", 100 + off, n - off), ("encode",)]
            off += u
            pend += u
            if e:
                want.append(("chunk", pend))
                pend = after[k]
                k += 1
        v = value(field(vfield(p.ret, "Ok"), "0"), env) if p.kind == "return" else None
        if tr != want:
            rule.bad("write", at(P, key), "%d bytes, of which the window takes %s at a time, lead to %s instead of %s" % (n, fills, tr, want))
            return
        if v != n:
            rule.bad("write:count", at(P, key), "%s bytes are reported as written, not %d" % (v, n))
            return
        x = value(p.load(root, (("f", "pending_size"),)), env)
        if x != pend:
            rule.bad("write:pending", at(P, key), "%s bytes are counted as pending, not %d" % (x, pend))
            return
        rule.ok("write", "%d in %d" % (n, len(fills)))
    env = {field(me, "finished"): 1, field(me, "pending_size"): 0, length(buf): 3}
    tr = []
    p, env = S.run(env, follow(S, env, me, (), (), (), tr))
    if tr or p.kind != "return" or (p.variant_of(p.ret) or variant(p.ret)) != "Err":
        rule.bad("write:finished", at(P, key), "data is accepted after the end of the stream")


# ---- window ----------------------------------------------------------------

DATA = "lz_encoder::LZEncoderData"


def window(rule, P):
    for f in (sizes, moving, filling, positions, lengths):
        f(rule, P)


def sizes(rule, P):
    key = find(rule, P, "lzma_rust::enc::encoder::LZMAEncoder", "new")
    if key is None:
        return
    op = named(P, "LiteralEncoder::new", "LengthEncoder::new", "LZMACoder::new", "HC4::new", "BT4::new", "NormalEncoderMode::new", "LZMAEncoder::get_dist_slot", "Matches::new") | model_resets(P)
    S = System(P, key, op, rule)
    names = [S.param(i) for i in range(P.bodies[key].argc)]
    md = mk("p", [n for n in names if n == "mode"][0]) if "mode" in names else mk("p", S.param(0))
    mf = mk("p", "mf") if "mf" in names else mk("p", S.param(4))
    ds = mk("p", "dict_size") if "dict_size" in names else mk("p", S.param(6))
    for m in ("Fast", "Normal"):
        for f in ("HC4", "BT4"):
            for d in (4096, 5000, 32768, 65535, 65536, 65537, 1 << 20, 1 << 26):
                env = {mk("variant", md): m, mk("variant", mf): f, ds: d}
                for i, n in enumerate(names):
                    if mk("p", n) not in env and n not in ("mode", "mf"):
                        env[mk("p", n)] = {"nice_len": 64, "depth_limit": 10}.get(n, 2)
                p, env = S.run(env, lambda e, env: 0)
                lz = fp(p.ret, "0", "lz", "data")
                kb, ka, bs = [value(field(lz, x), env) for x in ("keep_size_before", "keep_size_after", "buf_size")]
                bl = value(length(field(lz, "buf")), env)
                msg = None
                if None in (kb, ka, bs, bl):
                    msg = "sizes %s could not be determined" % ((kb, ka, bs, bl),)
                elif kb < d:
                    msg = "the window keeps %d bytes of a dictionary of %d" % (kb, d)
                elif kb < LIM_C:
                    msg = "with a dictionary of %d the window keeps %d bytes, fewer than a chunk that has to be stored can have" % (d, kb)
                elif ka < 273:
                    msg = "the window keeps %d bytes ahead" % ka
                elif bl != bs:
                    msg = "the buffer has %d bytes, its size is taken to be %d" % (bl, bs)
                elif bs < kb + ka + 1024:
                    msg = "the buffer of %d bytes leaves no room beside the %d + %d it keeps" % (bs, kb, ka)
                if msg:
                    rule.bad("window:size", at(P, key), "%s/%s: %s" % (m, f, msg))
                    return
            rule.ok("window", "size %s %s" % (m, f))


def moving(rule, P):
    key = find(rule, P, DATA, "move_window")
    if key is None:
        return
    S = System(P, key, (), rule)
    me, root = mk("d", mk("p", S.param(0))), mk("D", mk("p", S.param(0)))
    for rp, kb in ((200000, 70000), (199999, 70000), (199984, 70001), (70015, 70000), (69999, 70000), (300017, 65536), (130010, 70000), (130015, 70001), (130002, 69997)):
        wp, rl, n = rp + 4000, rp + 100, 400000
        env = {field(me, "read_pos"): rp, field(me, "write_pos"): wp, field(me, "read_limit"): rl, field(me, "keep_size_before"): kb, length(field(me, "buf")): n, field(me, "buf_size"): n}
        cp = []

        def oracle(e, env):
            if last(e) in ("copy", "copy_within", "copy_nonoverlapping"):
                cp.append(moved(S, e, env))
            return 0
        p, env = S.run(env, oracle)
        r, w, l = [value(p.load(root, (("f", x),)), env) for x in ("read_pos", "write_pos", "read_limit")]
        msg = None
        if p.kind == "panic":
            msg = "panics"
        elif None in (r, w, l):
            msg = "leaves positions that could not be determined"
        else:
            off = rp - r
            if wp - w != off or rl - l != off:
                msg = "shifts its positions by %d, %d and %d" % (off, wp - w, rl - l)
            elif off < 0 or r + 1 < kb:
                msg = "keeps %d bytes before the position, not %d" % (r + 1, kb)
            elif off % 16:
                msg = "moves by %d: positions modulo 16 change" % off
            elif off < rp + 1 - kb - 15:
                msg = "moves by only %d" % off
            elif off and cp != [(off, 0, w)]:
                msg = "moves %s (from, to, length) instead of %s" % (cp, (off, 0, w))
        if msg:
            rule.bad("window:move", at(P, key), "at position %d, keeping %d, the window %s" % (rp, kb, msg))
            return
        rule.ok("window", "move")


def moved(S, e, env):
    pl = [place(a, env) if a.op == "r" else None for a in e.args]
    if last(e) == "copy_within":
        r = e.vals[1]
        lo, hi = [value(field(r, x), env) for x in ("start", "end")]
        return (lo, value(e.vals[2], env), None if None in (lo, hi) else hi - lo)
    base = (S.param(0), "buf")
    out = []
    for x in pl[:2]:
        if x is None or x[:2] != base:
            return None
        out.append(x[2][0] if len(x) > 2 and isinstance(x[2], tuple) else 0 if len(x) == 2 else x[2])
    return (out[0], out[1], value(e.vals[2], env))


def filling(rule, P):
    key = find(rule, P, DATA, "fill_window")
    if key is None:
        return
    S = System(P, key, named(P, "LZEncoderData::move_window", "LZEncoderData::process_pending_bytes"), rule)
    me, root = mk("d", mk("p", S.param(0))), mk("D", mk("p", S.param(0)))
    inp = mk("d", mk("p", S.param(1)))
    bs, ka = 1000, 300
    for rp, wp, n in ((10, 20, 5), (10, 20, 2000), (690, 995, 10), (699, 999, 10), (700, 1000, 10), (700, 1000, 3), (-1, 0, 300), (-1, 0, 299), (-1, 0, 301), (5, 290, 10), (5, 1000, 7)):
        tr = []

        def bind_(b, r, w, l, env):
            for k, v in (("read_pos", r), ("write_pos", w), ("read_limit", l), ("keep_size_after", ka), ("buf_size", bs), ("finishing", 0), ("keep_size_before", 100), ("pending_size", 0)):
                env[field(b, k)] = v
            env[length(field(b, "buf"))] = bs
        cur = [rp, wp, -1]
        if wp >= ka:
            cur[2] = wp - ka
        env = {length(inp): n}
        for i in range(min(n, 2)):
            env[elem(inp, C(i))] = 50 + i
        bind_(me, *cur, env)
        at_end = {}

        def oracle(e, env):
            k = last(e)
            if k == "move_window":
                tr.append("move")
                for i in range(3):
                    cur[i] -= 592
                bind_(mk("out", e.ret, 0, e.args[0].a[1], e.args[0].a[2]), *cur, env)
            elif k in ("copy_from_slice", "copy", "copy_nonoverlapping"):
                d = place(e.args[0 if k == "copy_from_slice" else 1], env)
                tr.append(("copy", d, element(e.vals[1 if k == "copy_from_slice" else 0], 0, env), value(length(e.vals[1]) if k == "copy_from_slice" else e.vals[2], env)))
            elif k == "process_pending_bytes":
                tr.append("pending")
                v = e.vals[0]
                at_end.update({x: value(field(v, x), env) for x in ("read_pos", "write_pos", "read_limit")})
            return 0
        p, env = S.run(env, oracle)
        msg = None
        must = rp >= bs - ka
        took = min(n, bs - cur[1])
        want = [("copy", (S.param(0), "buf", (cur[1], cur[1] + took)), 50, took)] if took else []
        got = [x for x in tr if isinstance(x, tuple) and x[3] != 0]
        if p.kind == "panic":
            msg = "panics"
        elif ("move" in tr) != must:
            msg = "%s the window" % ("does not move" if must else "moves")
        elif got != want:
            msg = "copies %s, not %s" % (got, want)
        elif value(p.ret, env) != took:
            msg = "reports %s bytes, not %d" % (value(p.ret, env), took)
        elif tr[-1:] != ["pending"]:
            msg = "does not look after positions that wait for data"
        else:
            w = cur[1] + took
            e_ = {"read_pos": cur[0], "write_pos": w, "read_limit": w - ka if w >= ka else cur[2]}
            if at_end != e_:
                msg = "leaves %s, not %s" % (at_end, e_)
        if msg:
            rule.bad("window:fill", at(P, key), "at %d of %d with %d more bytes the window %s" % (rp, wp, n, msg))
            return
        rule.ok("window", "fill")


def positions(rule, P):
    for name in ("set_finishing", "set_flushing"):
        key = find(rule, P, DATA, name)
        if key is None:
            continue
        S = System(P, key, named(P, "LZEncoderData::process_pending_bytes"), rule)
        me = mk("d", mk("p", S.param(0)))
        got = {}

        def oracle(e, env):
            if last(e) == "process_pending_bytes":
                got.update({x: value(field(e.vals[0], x), env) for x in ("read_limit", "finishing", "write_pos", "read_pos")})
            return 0
        S.run({field(me, "write_pos"): 500, field(me, "read_pos"): 400, field(me, "finishing"): 0, field(me, "read_limit"): 200}, oracle)
        want = {"read_limit": 499, "finishing": int(name == "set_finishing"), "write_pos": 500, "read_pos": 400}
        if got != want:
            rule.bad("window:" + name, at(P, key), "%s leaves %s, not %s" % (name, got, want))
        else:
            rule.ok("window", name)
    for name, args, f in (("has_enough_data", 1, lambda v, a: int(v["read_pos"] - a < v["read_limit"])), ("get_avail", 0, lambda v: v["write_pos"] - v["read_pos"]),
                          ("get_pos", 0, lambda v: v["read_pos"]), ("get_byte", 2, lambda v, a, b: v["read_pos"] + a - b),
                          ("get_byte_backward", 1, lambda v, a: v["read_pos"] - a), ("get_current_byte", 0, lambda v: v["read_pos"])):
        key = find(rule, P, DATA, name)
        if key is None:
            continue
        S = System(P, key, (), rule)
        me = mk("d", mk("p", S.param(0)))
        for v in ({"read_pos": 40, "write_pos": 60, "read_limit": 50}, {"read_pos": 50, "write_pos": 60, "read_limit": 50}, {"read_pos": 51, "write_pos": 60, "read_limit": 50}):
            env = {field(me, k): x for k, x in v.items()}
            env[length(field(me, "buf"))] = 100
            for i in range(100):
                env[elem(field(me, "buf"), C(i))] = i
            a = [0, 3, 1][:args] if args != 1 else [1]
            a = {0: [], 1: [1], 2: [3, 1]}[args]
            for i, x in enumerate(a):
                env[mk("p", S.param(1 + i))] = x
            p, env = S.run(env, lambda e, env: 0)
            r = value(p.ret, env) if p.kind == "return" else None
            if r is None and p.kind == "return":
                h = holds(p.ret, env)
                r = None if h is None else int(h)
                r = table(p.ret, env) if r is None else r
            if r != f(v, *a):
                rule.bad("window:" + name, at(P, key), "%s%s gives %s, not %s, for %s" % (name, tuple(a), r, f(v, *a), v))
                break
        else:
            rule.ok("window", name)


def table(t, env):
    """the content of a numbered cell"""
    if t.op == "e":
        return value(t.a[1], env)
    return None


def lengths(rule, P):
    for name in ("get_match_len", "get_match_len2"):
        key = find(rule, P, DATA, name)
        if key is None:
            continue
        S = System(P, key, (), rule)
        me = mk("d", mk("p", S.param(0)))
        buf = field(me, "buf")
        data = b"abcabcabcabd" + b"abcabcabcabcx" + bytes(8)
        for dist in (0, 2, 5):
            for fw in ((0,) if name == "get_match_len" else (0, 1, 4)):
                for lim in (0, 1, 2, 5, 8, 12):
                    env = {field(me, "read_pos"): 12, field(me, "write_pos"): len(data), length(buf): len(data)}
                    for i, x in enumerate(data):
                        env[elem(buf, C(i))] = x
                    a = [dist, lim] if name == "get_match_len" else [fw, dist, lim]
                    for i, x in enumerate(a):
                        env[mk("p", S.param(1 + i))] = x
                    p, env = S.run(env, lambda e, env: 0)
                    r = value(p.ret, env) if p.kind == "return" else None
                    n, c = 0, 12 + fw
                    while n < lim and data[c + n] == data[c + n - dist - 1]:
                        n += 1
                    if r is None or not 0 <= r <= n or r == 0 < n:
                        rule.bad("window:" + name, at(P, key), "%s finds %s equal bytes at distance %d where there are %d (limit %d)" % (name, r, dist + 1, n, lim))
                        return
        rule.ok("window", name)
