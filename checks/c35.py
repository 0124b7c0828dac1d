"""LZMA streams end exactly at their declared size, or at their end marker."""
import itertools

from sa.terms import *
from sa import flow
from sa.prov import *
from sa.evalt import value
from sa.steps import System, Stuck, went_well
from checks.c34 import last, at
from checks.c17 import find, names, sink

TECHNIQUE = "finite evaluation of extracted transition systems (abstract interpretation of MIR) against a model of the stream protocol"
RULE = """The transition systems of LZMAReader::read, of its constructors, of LZMAWriter::write and of LZMAWriter::finish are
extracted (path summaries, one per way round each loop) and followed for buffer lengths, remaining sizes (known, unknown, at the
boundary of what counts as known), pieces handed out by the window, decoding errors, end markers and unfinished copies. The reader
must allow the window at most the space left in the buffer and, when the size is known, at most what remains; place each piece
behind the one before; take exactly what was handed out from what remains; end when nothing remains, or at an end marker when the
size is unknown and only then; pass every other decoding error on; refuse an end inside a copy; return what was placed; and do
nothing after the end. The window its constructor allocates is at least the dictionary named or, when the size is known, that size,
and a dictionary above the maximum is refused. The writer counts what it is given, refuses more than was declared before taking
any of it, hands all of it on in order, and ends, once, only when exactly what was declared was given: rest of the data, end
marker exactly when asked for, then the range coder's last bytes; after that it takes nothing."""
NOTE = RULE + " Symbols are C17, the dictionary C18, the header and property bytes C19 and C20."
LEVEL = "other"

RD, WR = "lzma_reader::LZMAReader::<R>", "enc::lzma_writer::LZMAWriter<W>"
MAX = (1 << 64) - 1
KNOWN = MAX // 2


def check(rule, P):
    for f in (reading, windows, writing, finishing):
        try:
            f(rule, P)
        except (Stuck, flow.Limit) as e:
            rule.bad("undecided:" + f.__name__, "lzma-rust/src", "%s: %s" % (f.__name__, e))
    for k, n in (("read", 100), ("window", 40), ("write", 20), ("finish", 8)):
        rule.floor(k, n)


# ---- reader --------------------------------------------------------------------

def scripts(n, rem):
    """[(pieces handed out, what the last decoding gives)] that a decoder can produce for a buffer of n bytes"""
    m = min(n, rem) if rem <= KNOWN else n
    cuts = [[m]] + ([[1, m - 1]] if m > 1 else []) + ([[m // 3, m // 3, m - 2 * (m // 3)]] if m > 2 else [])
    for c in cuts:
        yield c, None
    for k in {0, min(1, m), m // 2}:
        yield [k], "err"
        yield [k], "mark"
    if m > 3:
        yield [2, 1], "err"
        yield [2, 1], "mark"
        yield [2, 0], "mark"


def expected(n, rem, pieces, last_, pend):
    """(result, rest, ended) of one read"""
    size = 0
    for i, k in enumerate(pieces):
        if last_ and i == len(pieces) - 1:
            if last_ == "err" or rem != MAX:
                return "err", None, None
            size += k
            return ("err", None, None) if pend else (size, rem, 1)
        size += k
        if rem <= KNOWN:
            rem -= k
            if rem == 0:
                return ("err", None, None) if pend else (size, rem, 1)
        if size == n:
            return size, rem, 0
    return None


def reading(rule, P):
    ks = [k for k in P.bodies if RD in k and k.endswith("::read_decode")] or [k for k in P.bodies if "lzma_reader::LZMAReader<R> as" in k and k.endswith("::read")]
    if len(ks) != 1:
        rule.bad("missing:read", "lzma-rust/src/lzma_reader.rs", "the function that reads from an LZMA stream was not found")
        return
    key = ks[0]
    op = {k for k in P.bodies if "#" not in k and "{" not in k and any(s in k for s in ("decoder::LZMADecoder::", "LZDecoder::", "range_dec::RangeDecoder::<"))}
    S = System(P, key, op, rule)
    me, D = mk("d", mk("p", S.param(0))), mk("D", mk("p", S.param(0)))
    buf = mk("d", mk("p", S.param(1)))

    def go(n, rem, ended, pieces, last_, pend):
        what = "%d bytes wanted, %s remaining%s, pieces %s%s%s" % (n, rem if rem <= KNOWN else "%#x" % rem, " (ended)" if ended else "", pieces,
                                                                 {None: "", "err": " and an error", "mark": " and an end marker"}[last_], ", a copy unfinished" if pend else "")
        todo, state = list(pieces), {"off": 0, "limit": None, "rem": rem}
        bad = []

        def oracle(e, env):
            m = last(e)
            if m == "set_limit":
                state["limit"] = value(e.vals[1], env)
                most = min(n - state["off"], state["rem"] if rem <= KNOWN else n)
                if state["limit"] != most and not bad:
                    bad.append("lets the window take %s bytes, not %s" % (state["limit"], most))
                return None
            if m == "decode":
                if state["limit"] is None and not bad:
                    bad.append("decodes without a limit")
                state["limit"] = None
                if not todo and not bad:
                    bad.append("goes on decoding")
                if last_ and len(todo) <= 1:
                    env[mk("variant", e.ret)] = "Err"
                    return None
                return 0
            if m == "end_marker_detected":
                return int(last_ == "mark" and len(todo) <= 1)
            if m == "flush":
                lo = e.args[1].a[2][-1] if e.args[1].op == "r" and e.args[1].a[2] else None
                off = value(e.vals[2], env) if len(e.vals) > 2 else 0
                if lo and lo[0] == "sl":
                    b = value(lo[1], env)
                    off = None if b is None or off is None else off + b
                if off != state["off"] and not bad:
                    bad.append("puts a piece at %s, not %d" % (off, state["off"]))
                k = todo.pop(0) if todo else 0
                state["off"] += k
                state["rem"] -= k
                return k
            if m == "has_pending":
                return int(pend)
            if m == "is_stream_finished":
                return 1
            return 0
        env = {length(buf): n, field(me, "remaining_size"): rem, field(me, "end_reached"): int(ended), field(me, "relaxed_end_cond"): 1}
        try:
            p, env = S.run(env, oracle, 3000)
        except Stuck as e:
            rule.bad("read", at(P, key), "%s: %s" % (what, bad[0] if bad else e))
            return False
        want = (0, rem, int(ended)) if n == 0 or ended else expected(n, rem, pieces, last_, pend)
        if want is None:
            return True
        got = "err" if p.kind == "return" and (p.variant_of(p.ret) or env.get(mk("variant", p.ret))) == "Err" else None
        if p.kind == "return" and went_well(p, env):
            got = value(field(vfield(p.ret, "Ok"), "0"), env)
        if bad and want[0] != "err" or got != want[0]:
            rule.bad("read", at(P, key), "%s: the reader %s" % (what, bad[0] if bad else "gives %s, not %s" % (got if got is not None else p.kind, want[0])))
            return False
        if got != "err":
            r, d = value(p.load(D, (("f", "remaining_size"),)), env), value(p.load(D, (("f", "end_reached"),)), env)
            if (rem <= KNOWN and r != want[1]) or (rem > KNOWN and rem == MAX and r != MAX) or bool(d) != bool(want[2]):
                rule.bad("read", at(P, key), "%s: afterwards %s remain and the end %s, not %s and %s" % (what, r, "is reached" if d else "is not reached", want[1], "is reached" if want[2] else "is not"))
                return False
            if (n == 0 or ended) and len(todo) != len(pieces):
                rule.bad("read", at(P, key), "%s: data is decoded" % what)
                return False
        rule.ok("read", what)
        return True

    for n in (1, 2, 7, 4096, 1 << 33):
        for rem in (1, 2, 7, 8, 4095, 4096, 5000, 1 << 32, (1 << 32) + 3, KNOWN, MAX):
            for pieces, l in scripts(n, rem):
                for pend in (0, 1):
                    if not go(n, rem, False, pieces, l, pend):
                        return
    for n in (1, 7):
        for pend in (0, 1):
            if not go(n, 0, False, [0], None, pend):
                return
    for n, rem, ended in ((0, 5, False), (0, MAX, False), (5, MAX, True), (5, 0, True), (1, 3, True)):
        if not go(n, rem, ended, [], None, 0):
            return


def windows(rule, P):
    """the dictionary allocated is large enough"""
    key = find(rule, P, RD, "new")
    if key is None:
        return
    op = {k for k in P.bodies if "#" not in k and k.endswith(("LZDecoder::new", "LZMADecoder::new", "::new_stream"))}
    S = System(P, key, op, rule)
    par = {P.bodies[key].locals[1 + i][1]: i for i in range(P.bodies[key].argc)}
    un, ds = S.param(1), S.param(5)
    lims = [S.param(i) for i in (2, 3, 4)]
    for d, u in itertools.product((0, 1, 4095, 4096, 4097, 65535, 1 << 20, (1 << 26) + 1, 0xFFFFFFE0, 0xFFFFFFF0, 0xFFFFFFF1, 0xFFFFFFFF),
                                  (0, 1, 4095, 4096, 4097, 70000, (1 << 32) - 1, 1 << 32, (1 << 32) + 100, KNOWN, MAX)):
        got = []

        def oracle(e, env):
            if e.name.endswith("LZDecoder::new"):
                got.append(value(e.vals[0], env))
            return 0
        env = {mk("p", un): u, mk("p", ds): d, mk("p", lims[0]): 3, mk("p", lims[1]): 0, mk("p", lims[2]): 2}
        p, env = S.run(env, oracle)
        ok = p.kind == "return" and went_well(p, env)
        what = "a dictionary of %#x bytes and %s" % (d, "unknown size" if u > KNOWN else "%#x bytes of data" % u)
        if d > 0xFFFFFFF0:
            if ok:
                rule.bad("window", at(P, key), "%s is accepted" % what)
                return
            rule.ok("window", what)
            continue
        need = min(d, u) if u <= KNOWN else d
        if not ok or len(got) != 1 or got[0] is None or got[0] < need:
            rule.bad("window", at(P, key), "%s: the window has %s bytes, %d are needed" % (what, got[0] if ok and got else "no (refused)", need))
            return
        if value(field(field(vfield(p.ret, "Ok"), "0"), "remaining_size"), env) != u or value(field(field(vfield(p.ret, "Ok"), "0"), "end_reached"), env) not in (0, False):
            rule.bad("window", at(P, key), "%s: the reader does not start with that size remaining" % what)
            return
        rule.ok("window", what)


# ---- writer --------------------------------------------------------------------

def wkey(rule, P, name):
    ks = [k for k in P.bodies if "lzma_writer::LZMAWriter" in k and k.split("::")[-1] == name and "#" not in k and "{" not in k]
    if len(ks) != 1:
        rule.bad("missing:" + name, "lzma-rust/src/enc/lzma_writer.rs", "LZMAWriter::%s was not found" % name)
        return None
    return ks[0]


def wops(P):
    return {k for k in P.bodies if "#" not in k and "{" not in k and any(s in k for s in ("encoder::LZMAEncoder", "LZEncoder", "range_enc::RangeEncoder", "CountingWriter"))}


def wenv(S, given, declared, done):
    me = mk("d", mk("p", S.param(0)))
    ex = field(me, "expected_uncompressed_size")
    env = {field(me, "finished"): int(done), field(me, "current_uncompressed_size"): given, mk("variant", ex): "None" if declared is None else "Some"}
    if declared is not None:
        env[field(vfield(ex, "Some"), "0")] = declared
    return me, env


def writing(rule, P):
    key, fin = wkey(rule, P, "write"), wkey(rule, P, "finish")
    if key is None or fin is None:
        return
    S = System(P, key, wops(P) | {fin}, rule)
    D = mk("D", mk("p", S.param(0)))
    buf = mk("d", mk("p", S.param(1)))
    for n, (given, declared), done, cuts in itertools.product((0, 1, 10, 70000), ((0, None), (5, None), (0, 10), (5, 10), (5, 15), (1 << 33, (1 << 33) + 10), (0, 1 << 40), (10, 10), (3, 0)),
                                                              (0, 1), (1, 2)):
        me, env = wenv(S, given, declared, done)
        env[length(buf)] = n
        todo = [n] if cuts == 1 or n < 2 else [n // 2, n - n // 2]
        trace, bad = [], []

        def oracle(e, env):
            m = last(e)
            if m == "fill_window":
                v = e.args[1]
                off = value(sub(length(buf), length(e.vals[1])), env)
                lo = v.a[2][-1] if v.op == "r" and v.a[2] else None
                if lo and lo[0] == "sl":
                    off = value(lo[1], env)
                done_ = sum(x[1] for x in trace if x[0] == "fill")
                if off != done_ and not bad:
                    bad.append("hands on its data from %s, not from %d" % (off, done_))
                k = todo.pop(0) if todo else 0
                trace.append(("fill", k))
                return k
            trace.append((m,))
            return 0
        p, env = S.run(env, oracle, 3000)
        what = "%d bytes after %s of %s%s" % (n, given, declared, " (finished)" if done else "")
        ok = p.kind == "return" and went_well(p, env)
        fills = sum(x[1] for x in trace if x[0] == "fill")
        if done and n:
            good = not ok and not fills
        elif done:
            good = not fills and not any(x[0] == "encode_for_lzma1" for x in trace)
        elif n == 0:
            good = ("finish",) in trace and not fills
        elif declared is not None and given + n > declared:
            good = not ok and not fills
        else:
            r = value(field(vfield(p.ret, "Ok"), "0"), env) if ok else None
            c = value(p.load(D, (("f", "current_uncompressed_size"),)), env)
            good = ok and r == n and c == given + n and fills == n and ("encode_for_lzma1",) in trace
        if bad or not good:
            rule.bad("write", at(P, key), "%s: the writer %s" % (what, bad[0] if bad else "%s, having taken %d bytes%s" % ("succeeds" if ok else "fails", fills, "" if good else " (%s)" % ", ".join(x[0] for x in trace)[:80])))
            return
        rule.ok("write", what)


def finishing(rule, P):
    key = wkey(rule, P, "finish")
    if key is None:
        return
    S = System(P, key, wops(P), rule)
    D = mk("D", mk("p", S.param(0)))
    for (given, declared), done, marker in itertools.product(((0, None), (5, None), (0, 10), (5, 10), (10, 10), (11, 10), (0, 0), (3, (1 << 32) + 3), (1 << 33, 1 << 33)), (0, 1), (0, 1)):
        me, env = wenv(S, given, declared, done)
        env[field(me, "use_end_marker")] = marker
        trace = []

        def oracle(e, env):
            m = last(e)
            if m in ("set_finishing", "encode_for_lzma1", "encode_lzma1_end_marker", "finish"):
                trace.append(m)
            return 0
        p, env = S.run(env, oracle, 500)
        ok = p.kind == "return" and went_well(p, env)
        what = "%s of %s bytes given, %s end marker%s" % (given, declared, "an" if marker else "no", ", finished" if done else "")
        f = value(p.load(D, (("f", "finished"),)), env)
        if done:
            good = ok and not trace
        elif declared is not None and given != declared:
            good = not ok and not trace and not f
        else:
            good = ok and f and trace == ["set_finishing", "encode_for_lzma1"] + ["encode_lzma1_end_marker"] * marker + ["finish"]
        if not good:
            rule.bad("finish", at(P, key), "%s: finishing %s after %s" % (what, "succeeds" if ok else "fails", ", ".join(trace) or "nothing"))
            return
        rule.ok("finish", what)
