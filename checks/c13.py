"""Recorded sizes and checksums are those of the bytes actually streamed."""
from sa.terms import *
from sa import flow
from sa.prov import *
from checks import wstream as w

TECHNIQUE = "value-provenance dataflow (abstract interpretation of MIR)"
RULE = """For every successful path through push_archive_entry, push_archive_entries and write_encoded_header that
creates an encoder chain: the entry size and the block's last unpacked size are the final content of the byte counter
of the counting writer in front of the chain; the packed size is that of the counting writer behind the chain (wrapped
around self.output); the checksums are the finalised digests of those same two writers; the intermediate sizes are
read, in order, from the counters create_writer filled, after the end-of-stream signal; in a solid block the k-th
entry and k-th sub-stream record get the count and digest of the k-th source; entries with data get has_stream and
has_crc set. Paths without a chain record no data. Each read from the source is passed on as exactly buf[..n].
Any value taken from elsewhere (caller fields, file metadata, the other writer) is a violation. A counting source (the
sizes and checksums of a solid block's entries) counts and digests exactly the bytes each of its reads delivers."""
NOTE = RULE + " Decided on all dataflow paths with loops cut and havoc'd; trusts the counting adapters (C14) and create_writer's wiring (C15)."


def resolve(S, o):
    """follow the counter reference held by the packed-side counting writer"""
    if o and o[0].op == "D" and o[0].a[0].op in ("f",):
        b = origin(o[0].a[0])
        if b and b[0] is S.packed[0] and b[1][:len(S.packed[1])] == S.packed[1]:
            v = project(S.cw[0].vals[1], b[1][len(S.packed[1]):])
            if v.op == "r":
                return v.a[1], v.a[2] + o[1]
    return o


def truth(p, b):
    return p.entails(b) or p.entails(ne0(b))


def sized(rule, S, p, what, term, cell, where):
    if resolve(S, origin(strip(term))) != cell:
        rule.bad(what, where, "%s is %s%s, not the final byte count of %s" % (what, pp(term), " (%s)" % pploc(*origin(strip(term))) if origin(strip(term)) else "", pploc(*cell)))


def digest(rule, p, what, term, cells, where):
    t = strip(term)
    if t.op != "call" or t.a[0] != "crc32::finalize":
        rule.bad(what, where, "%s is %s, not a finalised checksum" % (what, pp(t)))
        return
    d = t.a[2][0]
    o = origin(d)
    if o is None and d.op == "call" and d.a[0] == "crc32::digest":
        rule.bad(what, where, "%s is the checksum of no data" % what)
        return
    if o is None or not any(o[0] is c[0] for c in cells):
        rule.bad(what, where, "%s is the checksum kept by %s, expected that of %s" % (what, o and pploc(*o), [pploc(*c) for c in cells]))
        return
    # nothing may be written through that writer afterwards
    fi = max((i for i, e in enumerate(p.ev) if e.kind == "call" and e.ret is t), default=0)
    for i, e in enumerate(p.ev):
        if i > fi and e.kind in ("call", "enter") and e.args and e.args[0].op == "r" and e.args[0].a[1] is o[0] and e.name.split("::")[-1] in ("write", "write_all"):
            rule.bad(what, e.where, "data is written after %s was taken" % what)


def check(rule, P):
    for fn in w.SITES:
        key, ps = w.run(P, rule, fn)
        if key is None:
            rule.bad("missing:" + fn, fn, "function not found")
            continue
        where = "%s (%s)" % (key, P.bodies[key].file())
        chains = 0
        for p in ps:
            if p.kind == "return" and p.variant_of(p.ret) == "Ok":
                chains += path(rule, P, ps, p, fn, where)
            elif p.kind == "loop":
                copy_step(rule, p, fn, where)
        if chains:
            rule.ok("section", "%s: %d successful paths with a chain" % (fn, chains))
    from checks.c27 import source
    source(rule, P)
    rule.floor("section", 3)
    rule.floor("source", 1)
    rule.floor("copy", 2)
    rule.floor("solid-entry", 1)


def copy_step(rule, p, fn, where):
    """one iteration of the copy loop: read n bytes -> hand on exactly buf[..n]"""
    body = after_loop(p, p.x["loop"])
    rd = [e for e in body if e.kind == "call" and e.name in ("Read::read", "SeqReader::read") or e.kind == "call" and e.name.endswith("::read")]
    S = w.Section(p)
    if not rd or not S.cw:
        return
    wr = [e for e in body if e.kind == "call" and e.name in ("Write::write_all", "Write::write")]
    r = rd[-1]
    n = field(vfield(r.ret, "Ok"), "0")
    if p.x["loop"][0].split("/")[-1].startswith("Read") or "SeqReader" in p.x["loop"][0]:
        return
    if len(wr) != 1 or len(rd) != 1:
        rule.bad("%s:copy" % fn, where, "one round of the copy loop reads %d times and writes %d times" % (len(rd), len(wr)))
        return
    a, b = wr[0].args[1], r.args[1]
    good = a.op == "r" and b.op == "r" and a.a[1] is b.a[1] and a.a[2][:len(b.a[2])] == b.a[2] and len(a.a[2]) == len(b.a[2]) + 1
    if good:
        sl = a.a[2][-1]
        good = sl[0] == "sl" and isc(sl[1], 0) and (p.entails(eqi(sl[2], n)) or rotated(p, r, sl[2], n))
    if not good:
        rule.bad("%s:copy" % fn, wr[0].where, "the bytes written (%s) are not the %s bytes just read into %s" % (pp(a), pp(n), pp(b)))
    if wr[0].name == "Write::write":
        m = field(vfield(wr[0].ret, "Ok"), "0")
        if not p.entails(eqi(m, sub(sl[2], sl[1]))):
            rule.bad("%s:copy" % fn, wr[0].where, "a partial write of the data just read is not completed")
    rule.ok("copy", "%s %s" % (fn, wr[0].where))


def rotated(p, r, lv, n):
    """`while n > 0 { write(buf[..n]); n = read(buf) }`: the carried count is the last read's at entry and after a round"""
    if lv.op != "lv":
        return False
    init = p.x.get(("init", lv))
    if init is None or p.load(*lvctx(lv)[2:]) is not n:
        return False
    cut = [i for i, e in enumerate(p.ev) if e.kind == "loop" and e.x == p.x["loop"]][-1]
    before = [e for e in p.ev[:cut] if e.kind == "call" and e.name == r.name]
    return bool(before) and init is field(vfield(before[-1].ret, "Ok"), "0") and before[-1].args[1] is r.args[1]


def last_push(p, root, path):
    v = p.load(root, path)
    o = p.init(root)
    return v


def path(rule, P, ps, p, fn, where):
    S = w.Section(p)
    if fn == "push_archive_entry":
        files = p.load(w.SELF, (("f", "files"),))
        E = files.a[1] if files.op == "push" else None
        if E is None:
            rule.bad(fn + ":files", where, "success without adding the entry to the file list: %s" % pp(files))
            return 0
    if not S.cw:
        if fn != "push_archive_entry":
            rule.bad(fn + ":chain", where, "success without compressing anything")
            return 0
        if not (p.variant_of(mk("p", "reader")) == "None" or truth(p, field(mk("p", "entry"), "is_directory"))):
            rule.bad(fn + ":dropped", where, "a source is given for a non-directory entry but nothing is compressed")
        for f in ("has_stream", "size", "has_crc"):
            if not p.entails(eq0(field(E, f))):
                rule.bad("%s:empty:%s" % (fn, f), where, "an entry without data is recorded with %s = %s" % (f, pp(field(E, f))))
        for c in (("f", "pack_info"),), (("f", "unpack_info"),):
            if p.load(w.SELF, c) is not project(p.init(w.SELF), c):
                rule.bad(fn + ":empty:streams", where, "an entry without data adds a stream or block")
        return 0
    if len(S.cw) > 1 or S.kcell is None:
        rule.bad(fn + ":chain", where, "%d encoder chains, packed-side counter %s" % (len(S.cw), S.kcell))
        return 0
    pk = S.packed
    if fn != "write_encoded_header":
        if S.pcell is None or S.plain is None:
            rule.bad(fn + ":plain", where, "no counting writer in front of the encoder chain")
            return 0
        if S.ktgt != (w.SELF, (("f", "output"),)):
            rule.bad(fn + ":packed-target", where, "the packed-side counting writer wraps %s, not self.output" % (S.ktgt and pploc(*S.ktgt)))
        pi = p.load(w.SELF, (("f", "pack_info"),))
        ui = p.load(w.SELF, (("f", "unpack_info"),))
    else:
        ev = [e for e in p.ev if e.kind == "call" and e.name == "PackInfo::write_to"]
        ue = [e for e in p.ev if e.kind == "call" and e.name == "UnpackInfo::write_to"]
        if not ev:
            return 1           # raw header: nothing recorded about a stream
        if not ue:
            rule.bad(fn + ":unpack", where, "pack info is written without unpack info")
            return 0
        pi, ui = ev[0].vals[0], ue[0].vals[0]
    n = lambda s: fn + ":" + s
    sizes, crcs, folders = field(pi, "sizes"), field(pi, "crcs"), field(ui, "folders")
    for nm, v in (("pack sizes", sizes), ("pack crcs", crcs), ("folders", folders)):
        if v.op != "push":
            rule.bad(n(nm), where, "%s did not get exactly one new record: %s" % (nm, pp(v)))
            return 0
        base = v.a[0]
        want = project(p.init(w.SELF), (("f", "unpack_info" if nm == "folders" else "pack_info"), ("f", {"pack sizes": "sizes", "pack crcs": "crcs", "folders": "folders"}[nm]))) if fn != "write_encoded_header" else None
        if want is not None and base is not want or want is None and base.op != "empty":
            rule.bad(n(nm), where, "%s got more than one new record, or older ones changed: %s" % (nm, pp(v)))
    F = folders.a[1]
    sized(rule, S, p, n("packed size"), sizes.a[1], S.kcell, where)
    digest(rule, p, n("packed crc"), crcs.a[1], [pk], where)
    # unpacked sizes of the block, in coder order
    pc = pieces(p, field(F, "sizes"))
    if not pc or pc[-1][0] != "push":
        rule.bad(n("block sizes"), where, "block sizes are %s" % pp(field(F, "sizes")))
    else:
        if fn != "write_encoded_header":
            sized(rule, S, p, n("block size"), pc[-1][1], S.pcell, where)
        more(rule, P, ps, p, S, pc[:-1], n("intermediate sizes"), where)
    same = deref_same(p, field(F, "methods"), S.cw[0].args[0], S.cw[0].vals[0])
    if not same:
        rule.bad(n("methods"), where, "the block is recorded with methods %s, encoded with %s" % (pp(field(F, "methods")), pp(S.cw[0].args[0])))
    if fn == "write_encoded_header":
        return 1 + header(rule, p, S, F, pc, where) * 0
    digest(rule, p, n("block crc"), field(F, "crc"), [S.plain], where)
    num = field(F, "num_sub_unpack_streams")
    if fn == "push_archive_entry":
        if not p.entails(eqi(num, ONE)):
            rule.bad(n("streams"), where, "a single entry is recorded as %s streams" % pp(num))
        sized(rule, S, p, n("entry size"), field(E, "size"), S.pcell, where)
        sized(rule, S, p, n("entry compressed_size"), field(E, "compressed_size"), S.kcell, where)
        digest(rule, p, n("entry crc"), field(E, "crc"), [S.plain], where)
        digest(rule, p, n("entry compressed_crc"), field(E, "compressed_crc"), [pk], where)
        for f in ("has_stream", "has_crc"):
            if not truth(p, field(E, f)):
                rule.bad(n(f), where, "an entry with data is recorded with %s = %s" % (f, pp(field(E, f))))
    else:
        solid(rule, P, ps, p, S, F, n, where)
    return 1


def deref_same(p, methods, arg, val):
    """the recorded method list is (a clone of) the one the chain was built from"""
    subs = set(subterms(methods)) | {methods}
    if any(x in subs for x in (val,)):
        return True
    # `&self.content_methods` derefs to the list: same cell
    return any(x is methods for x in subterms(arg)) or any(x is methods for x in subterms(val)) \
        or any(x.op == "r" and p.load(x.a[1], x.a[2]) is methods for x in subterms(arg))


def more(rule, P, ps, p, S, pc, what, where):
    cells = refcell(S.cw[0].args[2])
    if len(pc) != 1:
        rule.bad(what, where, "sizes of the inner coders come from %s" % [x[0] for x in pc])
        return
    x = pc[0]
    if x[0] == "extend":
        src = seq_source(x[1])
        okk = src and src[0] and src[0][0] is cells[0]
        if okk and src[1]:
            r = closure_ret(P, rule, src[1][-1])
            okk = len(src[1]) == 1 and r and len(r) == 1 and not any(y.op in ("lin", "c") for y in subterms(strip(r[0])))
        i = max(j for j, e in enumerate(p.ev) if e.ret is x[2])
    elif x[0] == "lv":
        it = pushed_per_iteration(ps, x[1])
        okk = it and all(len(v) == 1 and any(cellof(y, cells[0]) for y in subterms(v[0])) and strip(v[0]).op != "lin" for _, v in it)
        i = max(j for j, e in enumerate(p.ev) if e.kind == "loop" and e.x == lvctx(x[1])[:2])
    else:
        okk, i = False, 0
    if not okk:
        rule.bad(what, where, "the inner coders' sizes are not read one by one from the counters of the chain: %s" % pp(x[1]))
        return
    if not S.final or i < S.final[0][0]:
        rule.bad(what, where, "the inner coders' sizes are read before the end-of-stream signal was sent")


def cellof(y, root):
    return y.op == "r" and y.a[1] is root or y.op in ("lv", "lve") and lvctx(y)[2] is root or y.op in ("out", "oute") and (origin(y) or (None,))[0] is root


def header(rule, p, S, F, pc, where):
    """compressed header: plain size and crc are those of the bytes given to the chain"""
    d = S.data
    if len(d) != 1 or d[0][1].name != "Write::write_all":
        rule.bad("write_encoded_header:data", where, "the header is not written to the chain in one write_all")
        return 0
    raw = d[0][1].vals[1]
    size = pc[-1][1] if pc and pc[-1][0] == "push" else None
    if size is None or not p.entails(eqi(strip(size), length(raw))):
        rule.bad("write_encoded_header:size", where, "recorded header size %s is not the length of the header written" % (size and pp(size)))
    c = strip(field(F, "crc"))
    if not (c.op == "call" and c.a[0].endswith("checksum") and c.a[2][-1] is raw):
        rule.bad("write_encoded_header:crc", where, "recorded header checksum %s is not that of the header written" % pp(c))
    return 1


def solid(rule, P, ps, p, S, F, n, where):
    ents, rd = mk("L", "SevenZWriter::push_archive_entries", 2), None
    entv = mk("p", "entries")
    num = strip(field(F, "num_sub_unpack_streams"))
    fe = [e for e in p.ev if e.kind == "call" and e.name in ("Extend::extend", "Vec::append", "Vec::extend_from_slice") and refcell(e.args[0]) == (w.SELF, (("f", "files"),))]
    if len(fe) != 1:
        rule.bad(n("files"), where, "the entries of the block are not added to the file list exactly once")
        return
    if not p.entails(eqi(num, length(entv))) and not p.entails(eqi(num, length(fe[0].vals[1]))):
        rule.bad(n("streams"), where, "the block is recorded with %s streams for the given entries" % pp(num))
    # what each loop does to entry k
    upd = {}
    for q in ps:
        if q.kind != "loop":
            continue
        lid = q.x["loop"]
        if lid not in q.loops:
            continue
        snap = q.loops[lid][0]
        for root, new in q.store.items():
            old = snap.get(root)
            if old is None or old is new:
                continue
            if not about(old, entv):
                continue
            while new is not old and new.op == "ue":
                k, x = new.a[1], new.a[2]
                new = new.a[0]
                for pa, kind in flow.diff(elem(new, k), x, ()):
                    upd.setdefault(lid, []).append((q, k, pa, project(x, pa)))
            if new is not old:
                rule.bad(n("entries"), where, "the block's entries are changed as a whole: %s" % pp(new))
    got = {}
    for lid, us in upd.items():
        for q, iv, pa, v in us:
            if len(pa) == 1 and pa[0][0] == "f":
                got.setdefault(pa[0][1], []).append((q, iv, v))
            elif not pa:
                for f in ("size", "crc", "has_crc", "has_stream"):
                    got.setdefault(f, []).append((q, iv, field(v, f)))
    for f in ("size", "crc", "has_crc", "has_stream"):
        if f not in got:
            rule.bad(n("entry " + f), where, "`%s` of the block's entries is not set from the data streamed" % f)
            continue
        for q, iv, v in got[f]:
            entry_value(rule, P, q, iv, f, v, n, where)
    # every path round that loop sets all of them
    for lid, us in upd.items():
        fields = {pa[0][1] for _, _, pa, _ in us if pa}
        for q in ps:
            if q.kind == "loop" and q.x["loop"] == lid:
                have = {pa[0][1] for q2, _, pa, _ in us if q2 is q and pa}
                if fields - have and any(len(pa) == 0 for q2, _, pa, _ in us if q2 is q) is False:
                    rule.bad(n("entry partial"), where, "some entries of the block do not get %s" % sorted(fields - have))
    for vec, f in (("sub_stream_sizes", "size"), ("sub_stream_crcs", "crc")):
        t = field(F, vec)
        pc = pieces(p, t)
        if len(pc) == 1 and pc[0][0] == "lv":
            it = pushed_per_iteration(ps, pc[0][1])
            if not it or any(len(v) != 1 for _, v in it):
                rule.bad(n(vec), where, "%s does not get exactly one value per entry" % vec)
                continue
            init = p.x.get(("init", pc[0][1]))
            if init is not None and init.op != "empty":
                rule.bad(n(vec), where, "%s does not start empty" % vec)
            for q, v in it:
                ivs = [x for x in subterms(v[0]) if x.op == "e"]
                entry_value(rule, P, q, None, f, v[0], n, where, vec)
        elif len(pc) == 1 and pc[0][0] == "extend":
            src = seq_source(pc[0][1])
            r = closure_ret(P, rule, src[1][-1]) if src and src[1] else None
            want = {"size": ("size",), "crc": ("crc",)}[f]
            if not r or len(r) != 1 or not any(x.op == "f" and x.a[1] in want for x in subterms(r[0])):
                rule.bad(n(vec), where, "%s is collected from %s" % (vec, pp(pc[0][1])))
        else:
            rule.bad(n(vec), where, "%s is %s" % (vec, pp(t)))
    rule.ok("solid-entry", "%s: %s" % (where, sorted(got)))


def about(t, x):
    n = 0
    while n < 12:
        if t is x:
            return True
        if t.op == "cast":
            t = t.a[1]
        elif t.op in ("lve", "oute", "u", "f"):
            t = t.a[0]
        elif t.op == "lv":
            r = t.a[2]
            return r.op == "L" and r.a[0].split("::")[-1] == "push_archive_entries" and r.a[1] == 2 and x.op == "p"
        else:
            return False
        n += 1
    return False


def entry_value(rule, P, q, iv, f, v, n, where, vec=None):
    what = n("entry " + f if vec is None else vec)
    v = strip(v)
    if f in ("has_crc", "has_stream"):
        if not truth(q, v):
            rule.bad(what, where, "an entry of a solid block is recorded with %s = %s" % (f, pp(v)))
        return
    if f == "size":
        src = v
        okk = src.op == "f" and src.a[1] == "size"
    else:
        okk = v.op == "call" and v.a[0] == "crc32::finalize"
        src = v.a[2][0] if okk else v
        while src.op == "call" and src.a[0].endswith("clone"):
            src = src.a[2][0]
        okk = okk and src.op == "f" and src.a[1] == "crc"
    el = src.a[0] if okk else None
    okk = okk and el.op == "e"
    if okk:
        base, k = el.a[0], el.a[1]
        rd = mk("L", "SevenZWriter::push_archive_entries", 3)
        sub_ = [x for x in subterms(base)]
        readers = any(x.op == "f" and x.a[1] == "readers" for x in sub_) or any(x.op in ("lv", "lve") and ("f", "readers") in lvctx(x)[3] for x in sub_) \
            or any(x.op in ("out", "oute") for x in sub_)
        okk = readers and (iv is None or k is iv or q.entails(eqi(k, iv)))
    if not okk:
        rule.bad(what, where, "%s of an entry in a solid block is %s, not that of the source with the same index" % (f, pp(v)))
