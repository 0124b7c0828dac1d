"""Entry and packed-stream readers never cross their bounds."""
from sa.terms import *
from sa import adapters as A, mir, flow, arith
from checks import c14

RULE = """For every bounding reader (a Read adapter with a byte budget or a position range): on each dataflow path of
read the buffer passed to the wrapped stream is a prefix of the caller's buffer whose length is provably at most the
remaining budget (linear facts), the count returned is the inner count, and the budget goes down (position goes up) by
exactly that count; end of data without an inner call only when the budget is provably zero (or the buffer empty).
For the seekable variant every read is preceded by a seek to the reader's own position, and every accepted seek leaves
the position at or above the lower bound."""

BOUND = "sevenz_rust::reader::BoundedReader"
SEEK = "sevenz_rust::reader::SeekableBoundedReader"


def common(rule, p, name, where, budget):
    """budget: term of remaining bytes on entry; returns the inner event or None"""
    if p.kind != "return":
        if p.kind == "loop":
            moved = [x for x in p.inner if p.variant(x) != "Err"]
            if moved:
                rule.bad("%s:loop" % name, where, "reads repeatedly in one call: budget and buffer offset not tracked")
        return None
    good = [x for x in p.inner if p.variant(x) == "Ok"]
    other = [x for x in p.all_inner if x.name != "Read::read"]
    if other:
        rule.bad("%s:other-read" % name, other[0].where, "data is taken from the wrapped stream by %s" % other[0].name)
    for ev in p.inner:
        rng = p.bufarg(ev)
        if rng is None or not isc(rng[0], 0):
            rule.bad("%s:buffer" % name, ev.where, "wrapped stream gets %s, not a prefix of the caller's buffer" % ev.args[1])
            continue
        facts = p.st.facts[:ev.nf]
        if not arith.entails(facts, le(sub(rng[1], rng[0]), budget)):
            rule.bad("%s:limit" % name, ev.where, "asks the wrapped stream for %s bytes, not bounded by the budget %s; facts %s" % (rng[1], budget, facts))
        elif not (arith.entails(facts, eqi(rng[1], p.buflen)) or arith.entails(facts, eqi(rng[1], budget))):
            rule.bad("%s:min" % name, ev.where, "asks for %s bytes, neither the whole buffer nor the whole budget" % rng[1])
        elif arith.entails(facts, eq0(rng[1])) and not arith.entails(facts, eq0(p.buflen)):
            rule.bad("%s:zero" % name, ev.where, "asks for zero bytes although the budget is not used up")
    if p.retv == "Err":
        return None
    if not good:
        if not (isc(p.ret, 0) and (p.st.entails(le(budget, ZERO)) or p.st.entails(eq0(p.buflen)))):
            rule.bad("%s:early-end" % name, where, "Ok(%s) without reading although the budget %s may be positive; facts %s" % (p.ret, budget, p.st.facts))
        return None
    if len(good) > 1:
        rule.bad("%s:two" % name, where, "two inner reads in one call")
        return None
    if not p.st.entails(eqi(p.ret, p.n(good[0]))):
        rule.bad("%s:count" % name, where, "returns %s although %s bytes were read" % (p.ret, p.n(good[0])))
    return good[0]


def check(rule, P):
    im = A.impls(P, A.READ, "read")
    # --- budget reader
    if BOUND not in im:
        rule.bad("missing:BoundedReader", "-", "no bounded entry reader found")
        return
    key = im[BOUND][0]
    ps, e = A.paths(P, key, "r", rule)
    where = "%s (%s)" % (key, P.bodies[key].file())
    ints = [f["name"] for f in P.adts[BOUND]["variants"][0]["fields"] if f["ty"] in INT]
    if len(ints) != 1:
        rule.bad("BoundedReader:fields", where, "expected one budget field, found %s" % ints)
        return
    R = ints[0]
    n = 0
    for p in ps:
        b = p.old((("f", R),))
        tyof.setdefault(b, "usize")
        ev = common(rule, p, "BoundedReader", where, b)
        if p.kind == "return":
            n += 1
            d = sub(b, p.new((("f", R),)))
            want = p.n(ev) if ev is not None else ZERO
            if ev is None and p.retv == "Err" and not p.st.entails(eq0(d)):
                rule.bad("BoundedReader:err-budget", where, "a failed read changes the budget by %s" % d)
            elif p.retv == "Ok" and not p.st.entails(eqi(d, want)):
                rule.bad("BoundedReader:budget", where, "budget goes down by %s for %s bytes; facts %s" % (d, want, p.st.facts))
            rule.ok("bounded-path", "ret=%s budget-%s" % (p.st.ret, d))
    for k, it in P.fns("sevenz_rust"):
        if it.get("implself") and mir.adt_of(it["implself"]) == BOUND and it["kind"] == "fn" and not it.get("trait"):
            eng = flow.Engine(P)
            for s in eng.run(k):
                if s.kind == "return" and s.ret is not None and s.ret.op == "a" and s.ret.a[1].startswith(BOUND):
                    if field(s.ret, R).op != "p":
                        rule.bad("BoundedReader:ctor", k, "constructor stores %s as the budget" % field(s.ret, R))
                    rule.ok("constructor", "%s" % s.ret)
    rule.floor("bounded-path", 3)
    rule.floor("constructor", 2)
    # --- seekable position reader
    if SEEK not in im:
        rule.bad("missing:SeekableBoundedReader", "-", "no bounded packed-stream reader found")
        return
    key = im[SEEK][0]
    ps, e = A.paths(P, key, "r", rule)
    where = "%s (%s)" % (key, P.bodies[key].file())
    cur = [f["name"] for f in P.adts[SEEK]["variants"][0]["fields"] if f["ty"] in INT]
    bnd = [f["name"] for f in P.adts[SEEK]["variants"][0]["fields"] if f["ty"] == "(u64, u64)"]
    if len(cur) != 1 or len(bnd) != 1:
        rule.bad("SeekableBoundedReader:fields", where, "expected a position and a bounds pair, found %s" % (cur + bnd))
        return
    cur, bnd = cur[0], bnd[0]
    for p in ps:
        c = p.old((("f", cur),))
        lo, hi = p.old((("f", bnd), ("f", "0"))), p.old((("f", bnd), ("f", "1")))
        for t in (c, lo, hi):
            tyof.setdefault(t, "u64")
        b = sub(hi, c)
        ev = common(rule, p, "SeekableBoundedReader", where, b)
        for x in p.inner:
            # the wrapped source is positioned at `cur` before each read
            before = p.st.ev[:p.st.ev.index(x)]
            sk = [y for y in before if y.kind == "call" and y.name == "Seek::seek" and y.args[1].op == "a"]
            pos = [y for y in before if y.kind == "call" and y.name == "Seek::stream_position"]
            okk = False
            if sk:
                t = sk[-1].args[1]
                okk = variant(t) == "Start" and p.st.entails(eqi(field(t, "0"), c)) and p.variant(sk[-1]) != "Err"
            for y in pos:
                pv = field(vfield(y.ret, "Ok"), "0")
                okk = okk or p.st.entails(eqi(pv, c))
            if not okk:
                rule.bad("SeekableBoundedReader:position", x.where, "read from the shared source without seeking to the reader's own position first")
        if p.kind == "return" and p.retv == "Ok":
            d = sub(p.new((("f", cur),)), c)
            want = p.n(ev) if ev is not None else ZERO
            if not p.st.entails(eqi(d, want)):
                rule.bad("SeekableBoundedReader:advance", where, "position moves by %s for %s bytes" % (d, want))
            rule.ok("seekable-path", "ret=%s cur+%s" % (p.st.ret, d))
            nb = p.new((("f", bnd),))
            if nb is not p.old((("f", bnd),)):
                rule.bad("SeekableBoundedReader:bounds", where, "read changes the bounds")
    rule.floor("seekable-path", 2)
    # seek
    sk = P.method_impl("std::io::seek::Seek", SEEK, "seek")[0]
    if sk:
        eng = flow.Engine(P)

        def setup(st):
            root = mk("D", mk("p", "self"))
            for pth in ((("f", cur),), (("f", bnd), ("f", "0")), (("f", bnd), ("f", "1"))):
                t = st.load(root, pth)
                tyof.setdefault(t, "u64")
                st.assume(le(t, C(2**63 - 1)))
        rs = eng.run(sk, setup=setup)
        rule.assumptions.append("stream positions are below 2^63, as for every seekable stream")
        rule.ran(eng, rs, sk)
        for s in rs:
            if s.kind != "return":
                continue
            root = mk("D", mk("p", "self"))
            c2 = s.load(root, (("f", cur),))
            c0 = project(s.init(root), (("f", cur),))
            lo = project(s.init(root), (("f", bnd), ("f", "0")))
            if c2 is c0:
                continue
            # representable offsets: the i64 view equals the u64 value
            x = c2.a[1] if c2.op == "cast" else c2
            good = s.entails(le(lo, x))
            if not good and s.variant_of(s.ret) != "Err":
                rule.bad("SeekableBoundedReader:seek-below", sk, "seek can move the position to %s, below the lower bound; facts %s" % (x, s.facts))
            elif not good:
                # position was stored although an error is returned
                rule.bad("SeekableBoundedReader:seek-below", sk, "a position below the lower bound is stored")
            rule.ok("seek-path", "%s" % c2)
        rule.floor("seek-path", 1)
    ctor = 0
    for k, it in P.fns("sevenz_rust"):
        if it.get("implself") and mir.adt_of(it["implself"]) == SEEK and it["kind"] == "fn" and not it.get("trait"):
            eng = flow.Engine(P)
            for s in eng.run(k):
                if s.kind == "return" and s.ret is not None and s.ret.op == "a" and s.ret.a[1].startswith(SEEK):
                    b = field(s.ret, bnd)
                    if field(s.ret, cur) is not field(b, "0"):
                        rule.bad("SeekableBoundedReader:ctor", k, "reader starts at %s, not at the lower bound" % field(s.ret, cur))
                    rule.ok("constructor", "%s" % s.ret)
