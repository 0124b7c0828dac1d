"""Each block is decoded from its own packed streams, through its coders in bind order."""
from sa.terms import *
from sa import flow
from sa.flow import elem
from sa.prov import *
from checks import htab, c02
from checks.hgram import oks, compatible, one, find
from checks.c02 import struct, layers

TECHNIQUE = "wiring analysis of the decoder graph: provenance and loop-invariant checks on abstract interpretation paths of MIR"
RULE = """The stream map gives every block the index of its first packed stream (the number of packed streams of all blocks before it) and
every packed stream its offset (the sum of the sizes before it). The innermost reader of a block with one input stream is a bound of that
packed stream's size over the source, which was moved to 32 + pack_pos + that stream's offset and not used since; it is wrapped, once per
coder, by the decoder of that coder with the coder's own unpacked size, starting with the coder fed by the packed stream and going on with
the coder fed by the last one's output, until no bind pair takes the output further. For BCJ2 blocks every packed stream is given a reader
between its own offset and end; the main coder is one whose output no bind pair takes; its inputs, in order, are its input streams; and each
of these is the packed stream assigned to it, or the output of the coder its bind pair names, decoded from that coder's own input stream.
The size of a block is that of its unbound output; the compressed header is read through the same construction from the first packed stream."""
NOTE = RULE + """ The decoders themselves are outside (C03, C15 to C18, C30); which archives are refused before is decided by C28; that the
positions recorded by the writer are those of the data by C13 and C10."""
LEVEL = "other"
SIG = 32


def check(rule, P):
    tables(rule, P)
    blocks(rule, P)
    header(rule, P)
    inputs(rule, P)
    sizes(rule, P)
    for k, n in (("table", 2), ("position", 2), ("coder-step", 2), ("chain-start", 1), ("main-coder", 1), ("bcj2-input", 1), ("bcj2-sources", 1), ("input-stream", 2), ("unpack-size", 2)):
        rule.floor(k, n)


def eq(p, a, b):
    return a is b or p.entails(eqi(a, b))


def at(P, k):
    it = P.items[k]
    return "%s:%s" % tuple(it["span"][:2])


# ---- cumulative tables

def running(ps, p, v, H, size):
    """None when v[k] = sum of size(q, j) over j < k for every k below H"""
    err, out = htab.fills(ps, p, v, H)
    if err:
        return err
    for q, k, s, x in out:
        if x is None:
            return "an index is left out"
        le = [e for e in q.ev if e.kind == "loop" and e.x == q.x["loop"]][-1]
        acc = [h for h in le.havoc if h[2].op == "lv" and h[2] is uncast(x)]
        if not acc:
            return "what is stored (%s) is not a running sum" % pp(x)[:80]
        h = acc[0]
        if not isc(h[3], 0):
            return "the running sum starts at %s" % pp(h[3])[:60]
        d = sub(q.load(h[0], h[1]), h[2])
        w = size(q, k)
        if not eq(q, d, w):
            return "the running sum grows by %s" % pp(d)[:100]
    return None if out else "it is never filled"


def tables(rule, P):
    key = one(rule, P, "calculate_stream_map")
    if key is None:
        return
    e = flow.Engine(P)
    ps = e.run(key)
    rule.ran(e, ps, key)
    A = mk("d", mk("p", P.bodies[key].locals[1][1]))
    R = mk("D", mk("p", P.bodies[key].locals[1][1]))
    for p in oks(ps):
        fo, pk = field(A, "folders"), field(A, "pack_sizes")
        for name, H, size in (
                ("folder_first_pack_stream_index", length(fo), lambda q, k: length(field(elem(fo, k), "packed_streams"))),
                ("pack_stream_offsets", length(pk), lambda q, k: elem(pk, k))):
            v = p.load(R, (("f", "stream_map"), ("f", name)))
            m = running(ps, p, v, H, size)
            if m:
                rule.bad("map:" + name, at(P, key), "%s: %s" % (name, m))
            else:
                rule.ok("table", name)


# ---- one input stream

def position(p, arch, i):
    """(position, size) of packed stream i"""
    return add(add(C(SIG), field(arch, "pack_pos")), elem(field(field(arch, "stream_map"), "pack_stream_offsets"), i)), elem(field(arch, "pack_sizes"), i)


def run_block(rule, P):
    key = [k for k in P.bodies if "BlockDecoder" in k and k.endswith("::for_each_entries")]
    if len(key) != 1:
        rule.bad("missing:BlockDecoder", "src/reader.rs", "BlockDecoder::for_each_entries not found")
        return None, None, None
    op = {o for o in c02.names(P) if "OrderedCoderIter" not in o} - {"SevenZReader::packed_stream", "Folder::get_unpack_size_at_index"}
    e = flow.Engine(P, opaque=op, max_paths=40000)
    ps = e.run(key[0])
    rule.ran(e, ps, key[0])
    return key[0], ps, at(P, key[0])


def first_cell(t):
    """the folder a term speaks of: the first `folders` element in it"""
    for s in [t] + list(subterms(t)):
        if s.op == "e" and s.a[0].op == "f" and s.a[0].a[1] == "folders":
            return s
    return None


def blocks(rule, P):
    key, ps, where = run_block(rule, P)
    if ps is None:
        return
    seen = set()
    for p in ps:
        for i, ev in enumerate(p.ev):
            if ev.kind != "call" or ev.name != "callback" or len(ev.vals) < 3 or empty_reader(ev.vals[2]):
                continue
            ls = layers(p, ev.vals[2])
            b = ls[-1][1]
            if b.op == "r" and p.load(b.a[1], b.a[2]).op == "uninit":
                continue
            sig = (b, p.kind, tuple(f for f in p.facts if any(s.op in ("lv", "lve") for s in subterms(f))))
            if sig in seen:
                continue
            seen.add(sig)
            self_ = mk("p", "self")
            arch = field(self_, "archive")
            arch = mk("d", arch)
            fo = elem(field(arch, "folders"), field(self_, "folder_index"))
            stack(rule, P, ps, p, b, i, arch, fo, lambda q: elem(field(field(arch, "stream_map"), "folder_first_pack_stream_index"), field(self_, "folder_index")), "block", where)


def stack(rule, P, ps, p, b, i, arch, fo, first, what, where):
    if struct(b) == "BCJ2Reader":
        return bcj2(rule, P, ps, p, b, arch, fo, first, where)
    if b.op not in ("lv",):
        # no coder at all on this path: the packed data itself
        n = length(field(fo, "coders"))
        if not (p.entails(eq0(n)) or p.entails(ge0(scale(n, -1)))):
            rule.bad(what + ":stack", where, "the coders of a block are not applied to its packed stream (%s)" % pp(b)[:100])
        return source(rule, ps, p, b, i, arch, first, what, where)
    ctx, bb, root, path = lvctx(b)
    le = [e for e in p.ev[:i] if e.kind == "loop" and e.x == (ctx, bb)]
    h = [h for h in le[-1].havoc if h[2] is b] if le else []
    if not h:
        return rule.bad(what + ":stack", where, "the stream of a block is not built from its packed stream (%s)" % pp(b)[:100])
    j = [n for n, e in enumerate(p.ev) if e is le[-1]][0]
    source(rule, ps, p, layers(p, h[0][3]), j, arch, first, what, where)
    coders(rule, ps, p, le[-1], h[0], fo, what, where)


def source(rule, ps, p, ls, i, arch, first, what, where):
    if not isinstance(ls, list):
        ls = layers(p, ls)
    t = ls[-1][1]
    X = first(p)
    pos, size = position(p, arch, X)
    if what == "header":
        pos, size = add(C(SIG), field(arch, "pack_pos")), elem(field(arch, "pack_sizes"), ZERO)
    if struct(t) == "SeekableBoundedReader":
        lo, hi = field(field(t, "bounds"), "0"), field(field(t, "bounds"), "1")
        if not (eq(p, lo, pos) and eq(p, field(t, "cur"), pos) and eq(p, sub(hi, lo), size)):
            return rule.bad(what + ":bounds", where, "the packed stream is read from %s to %s" % (pp(lo)[:120], pp(hi)[:120]))
        rule.ok("position", what)
        return
    bd = [x for k, x in ls if k in ("bound", "take")]
    if not bd:
        return rule.bad(what + ":bound", where, "the packed stream is read without a limit")
    lim = field(bd[-1], "remain") if struct(bd[-1]) else bd[-1].a[2][1]
    if not eq(p, uncast(lim), size):
        rule.bad(what + ":size", where, "the packed stream is limited to %s bytes" % pp(lim)[:120])
    cell = (t.a[1], t.a[2]) if t.op == "r" else origin(t) if t.op in ("out", "oute") else None
    if cell is None:
        return rule.bad(what + ":source", where, "the packed stream is not read from the source (%s)" % pp(t)[:80])
    ops = [e for e in p.ev[:i] if e.kind == "call" and e.args and e.args[0].op == "r" and (e.args[0].a[1], e.args[0].a[2]) == cell and e.name not in ("Read::take", "Read::by_ref") and e.name.startswith(("Seek::", "Read::", "ReadBytesExt::", "BufRead::"))]
    if not ops:
        return rule.bad(what + ":seek", where, "the source is not moved to the packed stream")
    e = ops[-1]
    tgt = field(e.args[1], "0") if e.name == "Seek::seek" and variant(e.args[1]) == "Start" else None
    if tgt is None or not eq(p, tgt, pos):
        return rule.bad(what + ":seek", e.where, "before the packed stream is read, the source is moved by %s %s" % (e.name, [pp(a)[:200] for a in e.args[1:]]))
    rule.ok("position", what)


def index_of(t, name, of=None):
    """i when t is the element i of the field `name` (of `of`)"""
    t = uncast(t)
    while t.op in ("d", "rc"):
        t = t.a[0]
    if t.op == "e" and t.a[0].op == "f" and t.a[0].a[1] == name and (of is None or t.a[0].a[0] is of):
        return t.a[1]
    return None


def none_takes(ps, q, fo, out, fieldname="out_index"):
    """q has looked at every bind pair and none has this output (input) index"""
    bp = field(fo, "bind_pairs")
    for e in q.ev:
        if e.kind != "next" or e.name != "done":
            continue
        t = htab.base_of(e.vals[3] if len(e.vals) > 3 else e.vals[0])
        rng = t.op == "it" and t.a[0] == "range" and isc(t.a[1], 0) and eq(q, t.a[2], length(bp))
        if not rng and seq_of(e) is not bp:
            continue
        its = iterations(ps, e)
        if its and all(r.entails(ne0(sub(field(elem(bp, x.vals[1]), fieldname), out))) for r, x in its):
            return True
    return False


def coders(rule, ps, p, le, h, fo, what, where):
    root, path, D, init = h[:4]
    qs = [q for q in ps if q.kind == "loop" and q.x["loop"] == le.x and compatible(p, q)]
    cd = field(fo, "coders")
    state = None
    for q in qs:
        D2 = q.load(root, path)
        while D2.op == "box":
            D2 = D2.a[0]
        c = D2
        c = c.a[0] if c.op == "f" else c
        c = c.a[0] if c.op == "v" and c.a[1] == "Ok" else c
        ev = [e for e in q.ev if e.kind == "call" and e.name.endswith("add_decoder") and e.ret is c]
        if not ev:
            rule.bad(what + ":step", where, "in a step of building the decoder the stream becomes %s" % pp(D2)[:120])
            continue
        ev = ev[0]
        if uncast(ev.vals[0]) is not D and not (ev.vals[0].op == "box" and ev.vals[0].a[0] is D):
            rule.bad(what + ":input", ev.where, "a coder is given %s, not the output of the coder before it" % pp(ev.vals[0])[:120])
            continue
        i = [index_of(v, "coders", fo) for v in ev.vals]
        i = [x for x in i if x is not None]
        if not i:
            rule.bad(what + ":coder", ev.where, "the coder applied is not one of the block's list")
            continue
        i = uncast(i[0])
        size = ev.vals[1]
        own = any(eq(q, x, i) for x in [index_of(size, "unpack_sizes", fo)] if x is not None)
        if not own and not (isc(size, 0) and q.entails(ge0(sub(i, length(field(fo, "unpack_sizes")))))):
            rule.bad(what + ":coder-size", ev.where, "coder %s is told the unpacked size %s" % (pp(i)[:50], pp(size)[:100]))
        st = [x for x in le.havoc if x[2].op == "lv" and any(s is x[2] for s in subterms(i))]
        if not st or not (i is field(vfield(st[0][2], "Some"), "0") or i is st[0][2]):
            rule.bad(what + ":order", ev.where, "the coder applied next is not the one the bind pairs lead to (it is coder %s)" % pp(i)[:80])
            continue
        st = st[0]
        state = (st, i)
        n = q.load(st[0], st[1])
        if variant(n) == "None":
            if none_takes(ps, q, fo, i):
                rule.ok("coder-step", "last")
            else:
                rule.bad(what + ":last", ev.where, "the chain of coders ends although a bind pair may take the output further")
            continue
        x = uncast(field(n, "0") if variant(n) == "Some" else n)
        pr = x.a[0] if x.op == "f" and x.a[1] == "in_index" else None
        j = index_of(pr, "bind_pairs", fo) if pr is not None else None
        if j is None or not q.entails(eqi(field(pr, "out_index"), i)):
            rule.bad(what + ":next", ev.where, "after coder %s comes coder %s, which no bind pair says" % (pp(i)[-60:], pp(x)[:100]))
        else:
            rule.ok("coder-step", "next")
    if state is None:
        return
    st, i = state
    v0 = st[3]
    if variant(v0) == "None":
        if not p.entails(eq0(length(field(fo, "packed_streams")))):
            rule.bad(what + ":no-coder", where, "no coder is applied although the block has a packed stream")
    else:
        x = uncast(field(v0, "0") if variant(v0) == "Some" else v0)
        if not (x.op == "e" and isc(x.a[1], 0) and index_of(x, "packed_streams", fo) is not None):
            rule.bad(what + ":start", where, "the first coder applied is %s, not the one the packed stream feeds" % pp(x)[:100])
        else:
            rule.ok("chain-start", what)
    if not (p.variant_of(st[2]) == "None" or p.entails(ge0(sub(i, length(cd))))):
        rule.bad(what + ":end", where, "the chain of coders is left although another coder follows")


# ---- BCJ2

def bcj2(rule, P, ps, p, b, arch, fo, first, where):
    us = uncast(field(b, "uncompressed_size"))
    if cname(us) != "Folder::get_unpack_size" or first_cell(us) is not fo and not any(s is fo for v in cvals(us) for s in [v] + list(subterms(v))):
        rule.bad("bcj2:size", where, "the BCJ2 decoder is told the unpacked size %s" % pp(us)[:100])
    v = field(b, "inputs")
    err, out = fills_any(ps, p, v, C(4))
    if err:
        return rule.bad("bcj2:inputs", where, "the inputs of the BCJ2 coder: %s" % err)
    for q, k, s, x in out:
        c = x
        while c is not None and c.op in ("box",):
            c = c.a[0]
        c = c.a[0] if c is not None and c.op == "f" else c
        c = c.a[0] if c is not None and c.op == "v" else c
        ev = [e for e in q.ev[s:] if e.kind == "call" and e.ret is c and e.name.endswith("get_in_stream")]
        if not ev:
            rule.bad("bcj2:input", where, "an input of the BCJ2 coder is %s" % pp(x)[:100])
            continue
        ev = ev[0]
        key = ev.x if isinstance(ev.x, str) and ev.x in P.bodies else find(P, "get_in_stream")
        a = args_of(P, key, ev.vals)
        if a is None:
            rule.bad("bcj2:input-args", ev.where, "unknown arguments of the input lookup")
            continue
        st = sub(uncast(a["index"]), k)
        m = None
        if st.op == "e":
            m = uncast(st.a[1])
        if m is None:
            rule.bad("bcj2:stream", ev.where, "input %s of the BCJ2 coder is stream %s" % (pp(k)[-12:], pp(a["index"])[:100]))
            continue
        if a["folder"] is not fo:
            rule.bad("bcj2:folder", ev.where, "an input is looked up in another block")
        e1 = running(ps, q, st.a[0], length(field(fo, "coders")), lambda r, j: field(elem(field(fo, "coders"), j), "num_in_streams"))
        if e1:
            rule.bad("bcj2:first-stream", ev.where, "the first input stream of a coder: %s" % e1)
        e2 = None if a["map"] is st.a[0] else running(ps, q, a["map"], length(field(fo, "coders")), lambda r, j: field(elem(field(fo, "coders"), j), "num_in_streams"))
        if e2:
            rule.bad("bcj2:map", ev.where, "the map from coders to streams: %s" % e2)
        main(rule, ps, q, fo, m, where)
        packed(rule, ps, q, a["sources"], arch, fo, first, ev.where)
        rule.ok("bcj2-input", pp(k)[-12:])


def fills_any(ps, p, v, H):
    return htab.fills(ps, p, v, H)


def args_of(P, key, vals):
    """arguments of the input lookup by type"""
    b = P.bodies.get(key)
    if b is None:
        return None
    out = {}
    for n in range(1, b.argc + 1):
        ty = b.locals[n][0]
        if ty.endswith("folder::Folder"):
            out["folder"] = vals[n - 1]
        elif "SeekableBoundedReader" in ty:
            out["sources"] = vals[n - 1]
        elif ty.endswith("[usize]") or "Vec<usize>" in ty or "[usize;" in ty:
            out["map"] = vals[n - 1]
        elif ty == "usize":
            out["index"] = vals[n - 1]
    return out if len(out) == 4 else None


def main(rule, ps, p, fo, m, where):
    bp = field(fo, "bind_pairs")
    if none_takes(ps, p, fo, m):
        return rule.ok("main-coder", "searched")
    for e in p.ev:
        if e.kind != "loop":
            continue
        for h in e.havoc:
            if h[2].op != "lve":
                continue
            qs = [q for q in ps if q.kind == "loop" and q.x["loop"] == e.x]
            marks = qs and all(marked(q, h, bp) for q in qs)
            whole = [d for d in p.ev if d.kind == "next" and d.name == "done" and seq_of(d) is bp and d.ctx == e.x[0]]
            if not marks or not whole:
                continue
            if decided(p, elem(h[2], m)) is False:
                return rule.ok("main-coder", "unmarked")
            # none found: the index set beforehand
            for d in p.ev:
                if d.kind == "next" and d.name == "done":
                    its = iterations(ps, d)
                    if its and all(decided(r, elem(h[2], x.vals[1])) is True for r, x in its) and isc(m, 0):
                        return rule.ok("main-coder-none", "all bound")
    if isc(m, 0) and all_bound(ps, p, fo, length(field(fo, "coders"))):
        return rule.ok("main-coder-none", "all bound")
    rule.bad("bcj2:main", where, "the coder taken as the main one (%s) may have its output taken by a bind pair" % pp(m)[:60])


def marked(q, h, bp):
    """the round marks the output its bind pair takes"""
    x = [e for e in q.ev if e.kind == "next" and e.name == "item" and seq_of(e) is bp]
    if not x:
        return False
    o = field(elem(bp, x[-1].vals[1]), "out_index")
    v = q.load(h[0], h[1])
    if v is h[2]:
        return q.entails(ge0(sub(o, length(h[2]))))
    return v.op == "ue" and v.a[0] is h[2] and eq(q, uncast(v.a[1]), o) and isc(v.a[2], 1)


def packed(rule, ps, q, v, arch, fo, first, where):
    H = length(field(fo, "packed_streams"))
    err, out = htab.fills(ps, q, v, H)
    if err:
        return rule.bad("bcj2:sources", where, "the readers of the packed streams: %s" % err)
    for r, k, s, x in out:
        if struct(x) != "SeekableBoundedReader":
            rule.bad("bcj2:source", where, "a packed stream is read through %s" % pp(x)[:100])
            continue
        pos, size = position(r, arch, add(first(r), k))
        lo, hi = field(field(x, "bounds"), "0"), field(field(x, "bounds"), "1")
        if not (eq(r, lo, pos) and eq(r, field(x, "cur"), pos) and eq(r, sub(hi, lo), size)):
            rule.bad("bcj2:position", where, "packed stream %s of the block is read from %s to %s" % (pp(k)[-10:], pp(lo)[:140], pp(hi)[:140]))
        else:
            rule.ok("bcj2-sources", pp(k)[-12:])


# ---- input streams of the coders

def inputs(rule, P):
    key = one(rule, P, "get_in_stream")
    if key is None:
        return
    e = flow.Engine(P, opaque={"decoders::add_decoder", "SevenZReader::get_in_stream"})
    ps = e.run(key)
    rule.ran(e, ps, key)
    b = P.bodies[key]
    vals = [mk("p", b.locals[n][1]) for n in range(1, b.argc + 1)]
    vals = [mk("d", v) if b.locals[n + 1][0].startswith("&") else v for n, v in enumerate(vals)]
    a = args_of(P, key, vals)
    where = at(P, key)
    if a is None:
        return rule.bad("input:args", where, "unknown parameters")
    fo, ix = a["folder"], a["index"]
    pk, bp = field(fo, "packed_streams"), field(fo, "bind_pairs")
    for p in oks(ps):
        v = field(p.ret, "0")
        while v.op == "box":
            v = v.a[0]
        if struct(v) == "SeekableBoundedReader" or any(s is a["sources"] for s in subterms(v)) and cname(v) is None and v.op != "f":
            k = {s.a[1] for s in [v] + list(subterms(v)) if s.op == "e" and s.a[0] is a["sources"]}
            if len(k) != 1 or not same_source(v, elem(a["sources"], list(k)[0])):
                rule.bad("input:source", where, "an input is read from %s" % pp(v)[:120])
            elif not p.entails(eqi(elem(pk, list(k)[0]), ix)):
                rule.bad("input:packed", where, "input stream %s is given packed stream %s without knowing that they belong together" % (pp(ix), pp(list(k)[0])))
            else:
                rule.ok("input-stream", "packed")
            continue
        c = v
        c = c.a[0] if c.op == "f" else c
        c = c.a[0] if c.op == "v" else c
        ev = [e for e in p.ev if e.kind == "call" and e.ret is c and e.name.endswith("add_decoder")]
        if not ev:
            rule.bad("input:other", where, "an input is read from %s" % pp(v)[:120])
            continue
        ev = ev[0]
        i = [x for x in (index_of(y, "coders", fo) for y in ev.vals) if x is not None]
        i = uncast(i[0]) if i else None
        pr = i.a[0] if i is not None and i.op == "f" and i.a[1] == "out_index" else None
        if pr is None or index_of(pr, "bind_pairs", fo) is None or not p.entails(eqi(field(pr, "in_index"), ix)):
            rule.bad("input:coder", ev.where, "input stream %s is the output of coder %s, which no bind pair says" % (pp(ix), pp(i)[:80] if i is not None else "?"))
            continue
        own = [x for x in [index_of(ev.vals[1], "unpack_sizes", fo)] if x is not None and eq(p, uncast(x), i)]
        if not own and not (isc(ev.vals[1], 0) and p.entails(ge0(sub(i, length(field(fo, "unpack_sizes")))))):
            rule.bad("input:size", ev.where, "a coder is told the unpacked size %s" % pp(ev.vals[1])[:100])
        d = ev.vals[0]
        while d.op == "box":
            d = d.a[0]
        d = d.a[0] if d.op == "f" else d
        d = d.a[0] if d.op == "v" else d
        rec = [e for e in p.ev if e.kind == "call" and e.ret is d and e.name.endswith("get_in_stream")]
        ra = args_of(P, key, rec[0].vals) if rec else None
        if ra is None or ra["folder"] is not fo or ra["map"] is not a["map"] or ra["sources"] is not a["sources"]:
            rule.bad("input:nested", ev.where, "a coder is given %s as its input" % pp(ev.vals[0])[:100])
        elif not eq(p, uncast(ra["index"]), elem(a["map"], i)):
            rule.bad("input:stream", ev.where, "coder %s is given input stream %s" % (pp(i)[:60], pp(ra["index"])[:100]))
        elif not p.entails(eqi(field(elem(field(fo, "coders"), i), "num_in_streams"), ONE)):
            rule.bad("input:multi", ev.where, "a coder with several inputs is given only one of them")
        else:
            rule.ok("input-stream", "bound")


def same_source(v, s):
    """v is a copy of the reader s: same source, position and bounds"""
    if v is s:
        return True
    if v.op == "a" and v.a[0] == "adt":
        names = [f for f in ("inner", "cur", "bounds")]
        return all(part(field(v, n), field(s, n)) for n in names)
    return False


def part(x, y):
    if x is y:
        return True
    if x.op == "a":
        if struct(x) == "ReaderPtr":
            return field(x, "reader") is field(y, "reader")
        if x.a[0] == "tup" or x.a[0] == "tuple":
            return all(f is field(y, str(n)) for n, f in enumerate(x.a[3] if len(x.a) > 3 else x.a[-1]))
    return cname(x) == "Clone::clone" and any(s is y for v in cvals(x) for s in [v] + list(subterms(v)))


# ---- sizes

def sizes(rule, P):
    key = [k for k in P.bodies if k.endswith("Folder::get_unpack_size")]
    if len(key) != 1:
        return rule.bad("missing:get_unpack_size", "src/folder.rs", "Folder::get_unpack_size not found")
    e = flow.Engine(P)
    ps = e.run(key[0])
    rule.ran(e, ps, key[0])
    fo = mk("d", mk("p", "self"))
    where = at(P, key[0])
    us, tot = field(fo, "unpack_sizes"), field(fo, "total_output_streams")
    for p in ps:
        if p.kind != "return":
            continue
        i = index_of(p.ret, "unpack_sizes", fo)
        if i is not None:
            if not none_takes(ps, p, fo, uncast(i)):
                rule.bad("size:bound", where, "the size of a block is taken from output %s, which a bind pair may take" % pp(i)[:60])
            else:
                rule.ok("unpack-size", "unbound output")
        elif isc(p.ret, 0):
            if p.entails(eq0(tot)) or all_bound(ps, p, fo, tot):
                rule.ok("unpack-size", "no output")
            elif any(f.op in ("ge0",) and any(s.op == "len" and s.a[0] is us for s in subterms(f)) for f in p.facts):
                rule.ok("unpack-size", "no size recorded")
            else:
                rule.bad("size:none", where, "a block with outputs is given the size 0")
        else:
            rule.bad("size:other", where, "the size of a block is %s" % pp(p.ret)[:80])


def all_bound(ps, p, fo, tot):
    bp = field(fo, "bind_pairs")
    for e in p.ev:
        if e.kind != "next" or e.name != "done":
            continue
        t = htab.base_of(e.vals[3] if len(e.vals) > 3 else e.vals[0])
        t = t.a[1] if t.op == "it" and t.a[0] == "rev" else t
        if t.op == "it" and t.a[0] == "range" and isc(t.a[1], 0) and eq(p, t.a[2], tot):
            its = iterations(ps, e)
            if its and all(any(r.entails(eqi(field(s, "out_index"), n)) for n in (x.vals[1], sub(sub(tot, x.vals[1]), ONE)) for f in r.facts for s in subterms(f) if s.op == "e" and s.a[0] is bp) for r, x in its):
                return True
    return False


# ---- the compressed header

def header(rule, P):
    key = [k for k in P.bodies if k.endswith("::init_archive") and "Archive>" in k]
    if len(key) != 1:
        return rule.bad("missing:init_archive", "src/reader.rs", "Archive::init_archive not found")
    op = {o for o in c02.names(P) if "OrderedCoderIter" not in o} - {"Folder::get_unpack_size_at_index"}
    e = flow.Engine(P, opaque=op)
    ps = e.run(key[0])
    rule.ran(e, ps, key[0])
    n = 0
    for p in ps:
        si = [(i, ev) for i, ev in enumerate(p.ev) if ev.kind == "call" and ev.name.endswith("::read_streams_info")]
        if not si:
            continue
        for i, ev in enumerate(p.ev):
            if i < si[0][0] or ev.kind != "call" or ev.name not in ("Read::read_to_end", "Read::read_exact", "Read::read"):
                continue
            ls = layers(p, ev.vals[0])
            b = ls[-1][1]
            if b.op in ("out", "oute"):
                continue
            arch, fo = None, None
            arch = archives(p, si[0][1], b)
            if not arch:
                rule.bad("header:archive", ev.where, "the compressed header's own archive record is not found")
                break
            arch = arch[0]
            fo = elem(field(arch, "folders"), ZERO)
            stack(rule, P, ps, p, b, i, arch, fo, lambda q: ZERO, "header", ev.where)
            n += 1
            break
    if not n:
        rule.bad("header:none", at(P, key[0]), "no path reads a compressed header")


def archives(p, ev, b):
    """content of the archive record after read_streams_info filled it"""
    for t in [b] + list(p.facts) + [v for e in p.ev for v in e.vals if v is not None]:
        for s in [t] + list(subterms(t)):
            if s.op == "out" and s.a[0] is ev.ret and s.a[3] == () and any(x.op == "f" and x.a[0] is s and x.a[1] in ("folders", "pack_sizes") for f in p.facts for x in subterms(f)):
                return [s]
    return []
