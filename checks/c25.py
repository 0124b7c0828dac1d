"""Entry iteration: one callback per entry, and none after a stop."""
from sa.terms import *
from sa import flow
from sa.prov import *

TECHNIQUE = "loop-coverage and path-outcome analysis (abstract interpretation of MIR)"
RULE = """SevenZReader::for_each_entries walks all block indices and then all file indices, each upwards by one: every iteration of
the first calls BlockDecoder::for_each_entries once, for that block and with the caller's callback; an iteration of the
second calls the callback once, with the entry at that index and an empty reader, when file_folder_index has no block for it,
and not at all when it has one. BlockDecoder::for_each_entries calls the callback exactly once for every index from
folder_first_file_index[block] up to the first entry that file_folder_index does not give to the block. In both, the walk goes
on (or success is returned without a stop) only where the callback is known to have returned Ok(true); where it returned
Ok(false) the function returns Ok (false for a block) with no further callback, where it failed it returns an error.
calculate_stream_map keeps the map these walks rely on: an entry is given no block only between blocks and when it has no
data; it is given the open block, or opens a block by storing its own index as that block's first; block numbers never go
down, and a block is left exactly when it has as many entries with data as its number of substreams."""
NOTE = RULE + " What the readers contain is decided by C02 and C03. A callback that returns true has read its entry to the end."
BLOCK = "BlockDecoder::for_each_entries"


def check(rule, P):
    whole(rule, P)
    block(rule, P)
    streammap(rule, P)


def the(rule, P, cls, name):
    ks = [k for k in P.bodies if k.split("::")[-1] == name and cls in k and "#" not in k]
    if len(ks) != 1:
        rule.bad("missing:" + name, "-", "%s::%s not found" % (cls, name))
        return None
    return ks[0]


def fieldpath(t):
    """names of the fields a cell content was reached through"""
    out = []
    while t.op in ("f", "v", "d", "u", "e", "lv", "lve", "out", "oute", "ue", "usl"):
        if t.op == "f":
            out.append(t.a[1])
        if t.op in ("lv", "lve", "out", "oute"):
            o = origin(t)
            out += [x[1] for x in reversed(o[1]) if x[0] == "f"]
            t = o[0]
            continue
        t = t.a[0]
    return out


def is_elem_of(t, name):
    """index of the element of the field `name` that t is, or None"""
    t = uncast(t)
    while t.op in ("d", "rc"):
        t = t.a[0]
    if t.op == "e" and fieldpath(t.a[0])[:1] == [name]:
        return t.a[1]
    return None


class Walk:
    """The loop that moves an index."""

    def __init__(self, ev, idx, how):
        self.ev, self.idx, self.how = ev, idx, how
        self.key = (ev.ctx, ev.bb)

    def bounds(self):
        if self.how[0] == "iv":
            e, iv = self.ev, self.how[1]
            t = e.vals[3]
            while t.op == "it" and t.a[0] in ("deref", "enumerate", "map", "inspect", "peekable", "fuse"):
                t = t.a[1]
            if t.op == "it" and t.a[0] == "range" and tied(t.a[1], iv, e):
                return subst(self.idx, iv, t.a[1]), subst(self.idx, iv, t.a[2])
            n = flow.it_count(flow_state, e.vals[3])
            if n is None:
                return None
            return subst(self.idx, iv, ZERO), subst(self.idx, iv, n)
        h = self.how[1]
        return subst(self.idx, h[2], h[3]), None


def tied(lo, iv, e):
    return True


class _S:
    def pointee(self, t):
        return t


flow_state = _S()


def subst(t, a, b):
    return rewrite(t, lambda x: b if x is a else None)


def walk(p, i, idx):
    for j in range(i - 1, -1, -1):
        e = p.ev[j]
        if e.kind == "next" and e.name == "item" and any(s is e.vals[1] for s in subterms(idx)):
            return Walk(e, idx, ("iv", e.vals[1]))
        if e.kind == "loop":
            for h in e.havoc:
                if h[2].op == "lv" and any(s is h[2] for s in subterms(idx)):
                    return Walk(e, idx, ("lv", h))
    return None


def same(p, a, b):
    return a is b or p.entails(eqi(a, b))


def begins(p, w, lo):
    b = w.bounds()
    return b is not None and same(p, b[0], lo)


def steps(ps, w):
    """an index kept by hand goes up by one on every iteration"""
    if w.how[0] == "iv":
        return True
    root, path, lv, old = w.how[1]
    qs = [q for q in ps if q.kind == "loop" and q.x["loop"] == w.ev.x]
    return bool(qs) and all(isc(sub(q.load(root, path), lv), 1) for q in qs)


def inside(p, w, hi):
    """the index the walk is at lies below hi"""
    if w.how[0] == "iv":
        b = w.bounds()
        return b is not None and same(p, b[1], hi)
    return p.entails(lt(w.idx, hi))


def finished(p, w, hi):
    """path p has seen the walk end at hi"""
    for e in p.ev:
        if w.how[0] == "iv" and e.kind == "next" and e.name == "done" and (e.ctx, e.bb) == w.key:
            b = w.bounds()
            return b is not None and same(p, b[1], hi)
        if w.how[0] == "lv" and e.kind == "loop" and e.x == w.ev.x:
            if p.entails(ge0(sub(w.idx, hi))):
                return True
    return False


def at(q, w):
    """is this loop path an iteration of the walk"""
    if q.kind != "loop":
        return False
    if w.how[0] == "iv":
        return q.x["loop"][0] == w.key[0] and any(e.kind == "next" and e.name == "item" and (e.ctx, e.bb) == w.key for e in q.ev)
    return q.x["loop"] == w.ev.x


def since(q, w):
    """events of the current iteration"""
    j = max([i for i, e in enumerate(q.ev) if (e.ctx, e.bb) == w.key and (e.kind == "next" and e.name == "item" if w.how[0] == "iv" else e.kind == "loop")] or [0])
    return q.ev[j:]


def outcome(p, ev):
    """'true', 'false', 'err', None"""
    v = p.variant_of(ev.ret)
    if v == "Err":
        return "err"
    if v == "Ok":
        b = decided(p, field(vfield(ev.ret, "Ok"), "0"))
        return None if b is None else "true" if b else "false"
    return None


def retval(p):
    v = p.variant_of(p.ret)
    if v == "Ok":
        x = field(vfield(p.ret, "Ok"), "0")
        b = decided(p, x)
        return "ok", True if x is TRUE else False if x is FALSE else b
    if v == "Err":
        return "err", None
    return None, None


def stops(rule, P, key, ps, is_step, isblock):
    """nothing happens after a step that did not say `go on`"""
    n = 0
    for p in ps:
        if p.kind == "panic":
            continue
        evs = [(i, e) for i, e in enumerate(p.ev) if is_step(e)]
        for j, (i, e) in enumerate(evs):
            n += 1
            o = outcome(p, e)
            last = j == len(evs) - 1
            goes_on = not last or p.kind != "return" or any(x.kind == "loop" for x in p.ev[i:])
            if o == "true":
                continue
            if goes_on:
                rule.bad("goes-on:" + e.name, e.where, "the iteration goes on here although %s" % {
                    "err": "the step failed", "false": "a stop was requested", None: "the answer of the step was not examined"}[o])
                continue
            r, b = retval(p)
            if o is None:
                # handed on as it is
                if p.ret is e.ret:
                    continue
                if r == "ok" and isblock and o is None and field(vfield(p.ret, "Ok"), "0") is field(vfield(e.ret, "Ok"), "0") and p.variant_of(e.ret) == "Ok":
                    continue
            if o == "err" and r == "err":
                continue
            if o in ("false", None) and p.variant_of(e.ret) == "Ok" and r == "ok" and (not isblock and o is not None or not isblock or b is False):
                continue
            rule.bad("outcome:" + e.name, e.where, "the step gave %s but the function returns %s" % (o or "an answer nobody looked at", pp(p.ret)[:60]))
    return n


def whole(rule, P):
    key = the(rule, P, "SevenZReader", "for_each_entries")
    if key is None:
        return
    e = flow.Engine(P, opaque={BLOCK, "SevenZReader::build_decode_stack"})
    ps = e.run(key)
    rule.ran(e, ps, key)
    where = "%s (%s)" % (key, P.bodies[key].file())

    def is_block(ev):
        return ev.kind == "call" and ev.name == BLOCK

    def is_cb(ev):
        return ev.kind == "call" and ev.name == "callback"
    bw, fw = {}, {}
    arch = None
    for p in ps:
        for i, ev in enumerate(p.ev):
            if is_block(ev):
                dec = ev.vals[0]
                fi = field(dec, "folder_index")
                a = field(dec, "archive")
                arch = p.load(a.a[1], a.a[2]) if a.op == "r" else a
                w = walk(p, i, fi)
                if w is None or fi not in (w.idx,):
                    rule.bad("block-index", ev.where, "the block number is not the index of a walk")
                    continue
                cb = ev.args[1] if len(ev.args) > 1 else None
                if not from_param(p, cb, 2):
                    rule.bad("callback", ev.where, "a block is not given the caller's callback")
                bw.setdefault(w.key, (w, p))
            elif is_cb(ev):
                if not empty_reader(ev.vals[2]):
                    rule.bad("reader", ev.where, "an entry without a block is given a reader that is not empty")
                idx = is_elem_of(ev.vals[1], "files")
                w = walk(p, i, idx) if idx is not None else None
                if w is None:
                    rule.bad("entry", ev.where, "the entry handed over is not the one a walk over the files is at")
                    continue
                if not known_none(p, idx):
                    rule.bad("blockless", ev.where, "an entry is handed over with an empty reader although it may belong to a block")
                fw.setdefault(w.key, (w, p))
    if len(bw) != 1 or len(fw) != 1:
        return rule.bad("walks", where, "found %d walks over blocks and %d over entries without a block, expected one of each" % (len(bw), len(fw)))
    (wb, pb), (wf, pf) = list(bw.values())[0], list(fw.values())[0]
    # bounds
    nfold, nfile = count_of(ps, "folders", wb), count_of(ps, "files", wf)
    ranges(rule, ps, wb, pb, "folders", "block")
    ranges(rule, ps, wf, pf, "files", "blockless entry")
    for q in ps:
        if at(q, wb):
            n = sum(1 for x in since(q, wb) if is_block(x))
            if n != 1 or any(is_cb(x) for x in since(q, wb)):
                rule.bad("once-block", where, "an iteration of the walk over blocks decodes %d blocks" % n)
            else:
                rule.ok("block-step", where)
        if at(q, wf):
            n = sum(1 for x in since(q, wf) if is_cb(x))
            if any(is_block(x) for x in since(q, wf)) or n > 1:
                rule.bad("once-entry", where, "an iteration of the walk over entries makes %d callbacks" % n)
            elif n == 0 and not known_some(q, idx_at(q, wf)):
                rule.bad("left-out", where, "an entry is passed over although it may not belong to a block")
            else:
                rule.ok("entry-step", "callback" if n else "already handed over with its block")
        if q.kind == "return" and retval(q)[0] != "err":
            stopped = [x for x in q.ev if (is_block(x) or is_cb(x)) and outcome(q, x) == "false"]
            if not stopped and not (finished(q, wb, ends(q, wb, "folders")) and finished(q, wf, ends(q, wf, "files"))):
                rule.bad("incomplete", where, "success is returned although not every block and every entry was visited")
    n = stops(rule, P, key, ps, lambda ev: is_block(ev) or is_cb(ev), False)
    rule.ok("step-outcomes", "%d" % n)
    rule.floor("block-step", 1)
    rule.floor("entry-step", 2)
    rule.floor("step-outcomes", 1)


def from_param(p, t, n):
    """is t (or what it refers to) the n-th parameter"""
    for _ in range(6):
        if t is None:
            return False
        if t.op == "r":
            if t.a[1].op == "D":
                t = t.a[1].a[0]
                continue
            v = p.load(t.a[1], t.a[2])
            if v is t:
                return False
            t = v
            continue
        if t.op in ("d", "out"):
            t = t.a[0] if t.op == "d" else t.a[2]
            continue
        break
    return t.op == "p" or t.op == "L"


def mapped(p, idx):
    """terms p knows to be file_folder_index[idx]"""
    out = set()
    for f in list(p.facts) + list(p.disc):
        for s in subterms(f):
            j = is_elem_of(s, "file_folder_index") if s.op == "e" else None
            if j is not None and same(p, j, idx):
                out.add(s)
    return out


def known_none(p, idx):
    return any(p.variant_of(s) == "None" or p.entails(pure_is(s, "is_none")) for s in mapped(p, idx))


def known_some(p, idx):
    return idx is not None and any(p.variant_of(s) == "Some" for s in mapped(p, idx))


def pure_is(s, n):
    return eqi(s, NONE) if False else mk("is", s, "None")


def idx_at(q, w):
    if w.how[0] == "iv":
        for e in reversed(q.ev):
            if e.kind == "next" and e.name == "item" and (e.ctx, e.bb) == w.key:
                return subst(w.idx, w.how[1], e.vals[1])
        return None
    return w.idx


def count_of(ps, name, w):
    return None


def ends(p, w, name):
    """the number of elements of the field, as the walk's bound must be"""
    b = w.bounds()
    cands = set()
    if b and b[1] is not None:
        cands |= {s for s in subterms(b[1]) if s.op == "len"}
    for f in p.facts:
        cands |= {s for s in subterms(f) if s.op == "len"}
    cands = sorted((s for s in cands if fieldpath(s.a[0])[:1] == [name]), key=pp)
    for s in cands:
        if w.how[0] == "iv" and b and same(p, b[1], s) or w.how[0] == "lv" and (p.entails(ge0(sub(w.idx, s))) or p.entails(lt(w.idx, s))):
            return s
    return cands[0] if cands else mk("len", mk("?", name))


def ranges(rule, ps, w, p, name, what):
    if not begins(p, w, ZERO):
        rule.bad("start:" + what, w.ev.where, "the %s walk does not start at the first one" % what)
    if not steps(ps, w):
        rule.bad("step:" + what, w.ev.where, "the %s walk does not move on by one" % what)
    for q in ps:
        if at(q, w) and not inside(q, w, ends(q, w, name)):
            rule.bad("end:" + what, w.ev.where, "the %s walk does not run up to the number of %s" % (what, name))
            break
    else:
        rule.ok("walk", "%s: 0..%s" % (what, name))


# ---- one block

def belongs(p, s, f):
    """True/False/None: does p know that map entry s is Some(f)"""
    want = some(f)
    for a, b in ((s, want), (want, s)):
        for t in (mk("eq", a, b), mk("pure", "eq", (a, b))):
            if t in p.fset:
                return True
            if neg(t) in p.fset:
                return False
    for g in p.facts:
        pos = True
        while g.op == "not":
            g, pos = g.a[0], not pos
        if g.op in ("eq", "ne"):
            xs = list(g.a)
            if s in xs and (want in xs or any(variant(x) == "Some" and same(p, field(x, "0"), f) for x in xs)):
                return pos == (g.op == "eq")
    v = p.variant_of(s)
    if v == "None":
        return False
    if v == "Some":
        x = field(vfield(s, "Some"), "0")
        if same(p, x, f):
            return True
        if p.entails(ne0(sub(x, f))):
            return False
    return None


def block(rule, P):
    key = the(rule, P, "BlockDecoder", "for_each_entries")
    if key is None:
        return
    e = flow.Engine(P, opaque={"SevenZReader::build_decode_stack"})
    ps = e.run(key)
    rule.ran(e, ps, key)
    where = "%s (%s)" % (key, P.bodies[key].file())

    def is_cb(ev):
        return ev.kind == "call" and ev.name == "callback"
    ws = {}
    for p in ps:
        for i, ev in enumerate(p.ev):
            if is_cb(ev):
                idx = is_elem_of(ev.vals[1], "files")
                w = walk(p, i, idx) if idx is not None else None
                if w is None:
                    rule.bad("entry", ev.where, "the entry handed over is not the one a walk over the block's files is at")
                    continue
                ws.setdefault(w.key, []).append((w, p))
    if len(ws) != 1:
        return rule.bad("walks", where, "found %d walks over the entries of a block, expected one" % len(ws))
    lst = list(ws.values())[0]
    w0 = lst[0][0]
    fold = None
    ok_end = 0
    for w, p in lst:
        b = w.bounds()
        first = is_elem_of(b[0], "folder_first_file_index") if b else None
        if first is None or fieldpath(first)[:1] != ["folder_index"]:
            rule.bad("start", w.ev.where, "the walk does not start at the block's first entry")
            continue
        fold = first
        if b[1] is not None and not run_end(p, ps, b[0], b[1], fold):
            rule.bad("end", w.ev.where, "the walk does not end at the first entry that is not in the block (it ends at %s)" % pp(b[1])[:90])
        elif b[1] is None:
            # kept by hand: while going on, the entry must be one of the block
            if not any(belongs(p, s, fold) for s in mapped(p, w.idx)) and not any(run_end(p, ps, b[0], h, fold) for h in limits(p, w.idx, True)):
                rule.bad("outside", w.ev.where, "an entry is handed over without knowing that it is in the block")
        else:
            ok_end += 1
    if not steps(ps, w0):
        rule.bad("step", w0.ev.where, "the walk does not move on by one")
    if fold is None:
        return
    for q in ps:
        if q.kind == "panic":
            continue
        if at(q, w0):
            n = sum(1 for x in since(q, w0) if is_cb(x))
            if n != 1:
                rule.bad("once", where, "an iteration of the walk over a block's entries makes %d callbacks" % n)
            else:
                rule.ok("block-entry-step", where)
        if q.kind == "return" and retval(q)[0] != "err":
            cbs = [x for x in q.ev if is_cb(x)]
            stopped = [x for x in cbs if outcome(q, x) == "false" or x.ret is q.ret or x is cbs[-1] and outcome(q, x) is None]
            if stopped:
                continue
            done = [x for x in q.ev if x.kind == "next" and x.name == "done" and (x.ctx, x.bb) == w0.key]
            if w0.how[0] == "lv":
                done = any(x.kind == "loop" and x.x == w0.ev.x for x in q.ev) and (
                    any(belongs(q, s, fold) is False for s in mapped(q, w0.idx)) or at_map_end(q, w0.idx)
                    or any(run_end(q, ps, w0.bounds()[0], h, fold) for h in limits(q, w0.idx, False)))
            if not done and not empty_block(q):
                rule.bad("incomplete", where, "success is returned although not every entry of the block was visited")
            elif retval(q)[1] is not True:
                rule.bad("answer", where, "a block whose entries were all visited is reported as stopped")
            else:
                rule.ok("block-done", where)
    n = stops(rule, P, key, ps, is_cb, True)
    rule.ok("block-step-outcomes", "%d" % n)
    rule.floor("block-entry-step", 1)
    rule.floor("block-done", 1)


def limits(p, idx, below):
    """terms that idx is known to lie below (or to have reached)"""
    out = []
    for f in p.facts:
        if f.op == "ge0":
            h = add(add(f.a[0], idx), ONE) if below else sub(idx, f.a[0])
            out.append(h)
        elif f.op == "eq0" and not below or f.op == "ne0" and below:
            out += [add(idx, f.a[0]), sub(idx, f.a[0])]
    return [h for h in out if not any(s is idx for s in subterms(h))]


def empty_block(q):
    return False


def at_map_end(p, idx):
    for f in p.facts:
        for s in subterms(f):
            if s.op == "len" and fieldpath(s.a[0])[:1] in (["file_folder_index"], ["files"]) and p.entails(ge0(sub(idx, s))):
                return True
    return False


def run_end(p, ps, lo, hi, fold):
    """hi is where the run of entries that belong to the block, starting at lo, ends"""
    if at_map_end(p, hi) or hi.op == "len" and fieldpath(hi.a[0])[:1] in (["file_folder_index"], ["files"]):
        # the scan must have gone through the whole rest
        src = [e for e in p.ev if e.kind == "next" and e.name == "done" and over_map(e)] or [e for e in p.ev if e.kind == "loop" and hand_scan(ps, e, lo, fold)]
        return any(e.kind == "loop" or scan_ok(ps, e, lo, fold) for e in src)
    if not any(belongs(p, s, fold) is False for s in mapped(p, hi)):
        return False
    src = [e for e in p.ev if e.kind == "next" and e.name == "item" and over_map(e) and any(s is e.vals[1] for s in subterms(hi))]
    if any(scan_ok(ps, e, lo, fold) for e in src):
        return True
    return any(e.kind == "loop" and hand_scan(ps, e, lo, fold) and any(s is h[2] for h in e.havoc for s in subterms(hi)) for e in p.ev)


def over_map(e):
    if e.vals[3].op == "it" and e.vals[3].a[0] == "range" and not any(s.op == "len" and fieldpath(s.a[0])[:1] in (["file_folder_index"], ["files"]) for s in subterms(e.vals[3].a[2])):
        return False
    c = seq_of(e)
    if c is not None and "file_folder_index" in fieldpath(c)[:1] + [x for s in subterms(c) if s.op == "f" for x in [s.a[1]]]:
        return True
    return e.vals[3].op == "it" and any(s.op == "f" and s.a[1] == "file_folder_index" for s in subterms(e.vals[3]))


def scan_ok(ps, e, lo, fold):
    """the scan starts at lo and goes on only past entries of the block"""
    its = iterations(ps, e)
    if not its:
        return False
    for q, x in its:
        hits = [s for f in q.facts for s in subterms(f) if s.op == "e" and is_elem_of(s, "file_folder_index") is not None and any(y is x.vals[1] for y in subterms(s.a[1]))]
        if not any(belongs(q, s, fold) and same(q, subst(s.a[1], x.vals[1], first_of(x)), lo) for s in hits):
            return False
    return True


def first_of(x):
    t = x.vals[3]
    while t.op == "it" and t.a[0] in ("deref", "enumerate", "map", "inspect", "peekable", "fuse", "take_while"):
        t = t.a[1]
    return t.a[1] if t.op == "it" and t.a[0] == "range" else ZERO


def hand_scan(ps, e, lo, fold):
    qs = [q for q in ps if q.kind == "loop" and q.x["loop"] == e.x]
    if not qs:
        return False
    for root, path, lv, old in e.havoc:
        if lv.op != "lv":
            continue
        ok = True
        for q in qs:
            hit = False
            for f in q.facts:
                for s in subterms(f):
                    j = is_elem_of(s, "file_folder_index") if s.op == "e" else None
                    if j is not None and any(y is lv for y in subterms(j)) and belongs(q, s, fold) and same(q, subst(j, lv, old), lo):
                        hit = True
            if not hit or not isc(sub(q.load(root, path), lv), 1):
                ok = False
        if ok:
            return True
    return False


# ---- the map

def streammap(rule, P):
    key = the(rule, P, "Archive>", "calculate_stream_map")
    if key is None:
        ks = [k for k in P.bodies if k.endswith("::calculate_stream_map") and "#" not in k]
        return
    e = flow.Engine(P)
    ps = e.run(key)
    rule.ran(e, ps, key)
    where = "%s (%s)" % (key, P.bodies[key].file())
    mains = []
    for p in ps:
        for ev in p.ev:
            if ev.kind == "loop" and ev not in mains and any(h[1][-1:] == (("f", "file_folder_index"),) for h in ev.havoc):
                mains.append(ev)
    keys = {ev.x for ev in mains}
    keys = {k for k in keys if any(q.kind == "loop" and q.x["loop"] == k and writes(q, k) is not None for q in ps)}
    if len(keys) != 1:
        return rule.bad("map", where, "no single loop gives the entries their blocks")
    k = keys.pop()
    ev = [x for x in mains if x.x == k][0]
    qs = [q for q in ps if q.kind == "loop" and q.x["loop"] == k]
    scal = [h for h in ev.havoc if h[2].op == "lv" and len(h) == 4 and isc(h[3], 0)]
    best = None
    for f in scal:
        for c in scal:
            if f is c:
                continue
            bad = [m for q in qs for m in [step(q, k, f, c)] if m]
            if best is None or len(bad) < len(best):
                best = bad
    if best is None:
        return rule.bad("map-state", where, "the loop keeps no block number and substream counter starting at 0")
    for m in best:
        rule.bad("map:" + m[0], where, m[1])
    if not best:
        for q in qs:
            rule.ok("map-step", where)
    rule.floor("map-step", 4)
    # every entry gets its value
    covers = [q for q in ps if q.kind == "return" and retval(q)[0] == "ok"]
    for q in covers:
        d = [x for x in q.ev if x.kind == "next" and x.name == "done" and x.ctx == k[0]]
        n = [x for x in d if any(s.op == "len" and fieldpath(s.a[0])[:1] in (["files"], ["file_folder_index"]) for s in subterms(x.vals[3]))]
        h = [s for f in q.facts for s in subterms(f) if s.op == "len" and fieldpath(s.a[0])[:1] == ["files"] and any(
            hh[2].op == "lv" and q.entails(ge0(sub(hh[2], s))) for hh in ev.havoc)]
        sq = [x for x in d if seq_of(x) is not None and fieldpath(seq_of(x))[:1] in (["files"], ["file_folder_index"])]
        if not (n or h or sq):
            rule.bad("map-partial", where, "the loop over the entries does not reach the last one")
        else:
            rule.ok("map-all", where)
    rule.floor("map-all", 1)


def writes(q, k):
    """(index, value, first-index writes) of this iteration"""
    ev = [x for x in q.ev if x.kind == "loop" and x.x == k][-1]
    got = None
    for h in ev.havoc:
        if h[1][-1:] == (("f", "file_folder_index"),):
            v = q.load(h[0], h[1])
            if v.op == "ue" and v.a[0] is h[2]:
                got = (v.a[1], v.a[2])
            elif v is not h[2]:
                return None
    return got


def firsts(q, k, g):
    """(value of folder_first_file_index[g] at the end of the iteration, at its start)"""
    ev = [x for x in q.ev if x.kind == "loop" and x.x == k][-1]
    for h in ev.havoc:
        if h[1][-1:] == (("f", "folder_first_file_index"),):
            return elem(q.load(h[0], h[1]), g), elem(h[2], g)
    return None, None


def step(q, k, fh, ch):
    f, c = fh[2], ch[2]
    f2, c2 = q.load(fh[0], fh[1]), q.load(ch[0], ch[1])
    if f2 is f and c2 is c and not any(q.load(h[0], h[1]) is not h[2] for h in [x for x in q.ev if x.kind == "loop" and x.x == k][-1].havoc if h[1][-1:] == (("f", "file_folder_index"),)):
        got = None
    got = writes(q, k)
    if got is None:
        # nothing written: the entry keeps the `None` it was filled with
        iv = [e for e in q.ev if e.kind == "next" and e.name == "item" and e.ctx == k[0]]
        if not iv:
            return ("index", "an entry is passed over")
        got = (iv[-1].vals[1], NONE)
    iv, x = got
    data = None
    for g in q.facts:
        t, pos = g, True
        while t.op == "not":
            t, pos = t.a[0], not pos
        if t.op in ("eq0", "ne0"):
            pos = pos == (t.op == "ne0")
            t = t.a[0]
        if t.op == "f" and t.a[1] == "has_stream" and t.a[0].op == "e" and same(q, t.a[0].a[1], iv):
            data = pos
    if variant(x) == "None":
        if data is not False:
            return ("dropped", "an entry that may have data is given no block")
        if not q.entails(eq0(c)):
            return ("hole", "an entry is given no block although one is open")
        if not (q.entails(eqi(f2, f)) and q.entails(eq0(c2))):
            return ("moved", "an entry without a block changes the state of the walk")
        return None
    if variant(x) != "Some":
        return ("unknown", "an entry is given neither a block nor none")
    g = field(x, "0")
    new, old = firsts(q, k, g)
    if q.entails(eq0(c)):
        if not (new is not None and same(q, new, iv)):
            return ("first", "a block is opened without storing its first entry")
        if not q.entails(ge0(sub(g, f))):
            return ("order", "a block is opened that comes before the one just left")
    else:
        if not q.entails(ne0(c)):
            return ("state", "an entry is given a block without knowing whether one is open")
        if not same(q, g, f):
            return ("other", "an entry inside an open block is given another block")
        if new is not None and new is not old and not same(q, new, old):
            return ("first-lost", "the first entry of an open block is overwritten")
    if data is None:
        return ("data", "whether the entry has data is not examined")
    if data is False:
        if not (same(q, f2, g) and same(q, c2, c)):
            return ("empty-counted", "an entry without data inside a block is counted as one of its substreams")
        return None
    n = [s for t in q.facts for s in subterms(t) if s.op == "f" and s.a[1] == "num_unpack_sub_streams" and s.a[0].op == "e" and same(q, s.a[0].a[1], g)]
    if q.entails(eq0(c2)):
        if not q.entails(ge0(sub(f2, add(g, ONE)))):
            return ("not-left", "a block is closed without moving on to the next")
        if not any(q.entails(ge0(sub(add(c, ONE), s))) or q.entails(eqi(c, ONE)) for s in n) and not q.entails(eqi(c, ONE)):
            return ("early", "a block is left before all its substreams were given out")
        return None
    if not same(q, f2, g):
        return ("left", "the walk moves on while the block is still open")
    up = same(q, c2, add(c, ONE)) and any(q.entails(lt(add(c, ONE), s)) for s in n)
    down = q.entails(eqi(c2, sub(c, ONE))) or q.entails(eq0(c)) and any(q.entails(eqi(c2, sub(s, ONE))) for s in n)
    if not (up or down):
        return ("late", "a block is kept open although all its substreams may have been given out")
    return None
