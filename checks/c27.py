"""Solid compression opens each source file lazily, once, and reads it in order."""
import re
from sa.terms import *
from sa import flow
from sa.prov import *
from checks.hgram import oks
from checks.c09 import truth
from checks.c19 import loc

TECHNIQUE = "typestate of lazily opened sources and pairing analysis of entries with sources (abstract interpretation of MIR)"
RULE = """Lazy source: its constructor opens nothing; a read opens the file of its own path only in a state which no read leaves it in or
brings it back to (the state after each path, put into the conditions of each opening path, is contradictory), so a file is opened at
most once, and only for a non-empty buffer; what it returns is what one read of that file gave for the caller's buffer; when that is
nothing, no file is held any more; nothing is returned without reading only for an empty buffer or in a state only an end of file
leads to. Sequence: the sources are read from the first, one after another; it moves on by one exactly when the current one gave
nothing for a non-empty buffer, returns what the current one gave otherwise, and ends only when none is left. Counting source: one
read, returned as it is, its length added to the count and its bytes to the digest. Directory: over all collected paths in order,
each round gives the archive exactly one entry, made from that path and named by it relative to the source directory, and exactly one
source of the same path: pushed at once, or appended to the pending entries and the pending sources, which are handed over together,
completely and in order, both starting afresh; a pending source is a lazy one; nothing is pending when the function succeeds. The
collector records each path it is given that the filter accepts: itself if it is no directory, otherwise all that is in it that is
a file or a directory, through itself, with the same filter; so does the non-solid compressor."""
NOTE = RULE + """ What a directory listing contains and its order are the platform's. A source that the caller opened before is the caller's."""
LEVEL = "other"
SEQ = "sevenz_rust::writer::seq_reader::"
PATHCONV = ("PathBuf::as_path", "AsRef::as_ref", "Deref::deref", "Clone::clone", "Path::to_path_buf", "ToOwned::to_owned", "Path::new", "PathBuf::from", "From::from", "Into::into", "AsRef<Path>::as_ref", "Borrow::borrow")
NAMECONV = ("ToString::to_string", "Path::to_string_lossy", "Cow::into_owned", "Path::to_str", "ToOwned::to_owned", "String::from", "From::from", "Into::into", "str::to_string", "str::to_owned", "Deref::deref", "Path::display", "AsRef::as_ref", "OsStr::to_string_lossy", "Path::as_os_str")
SRCCONV = ("Into::into", "From::from", "SourceReader::new", "BufReader::new", "BufReader::with_capacity")
S = mk("D", mk("p", "self"))


def check(rule, P):
    lazy(rule, P)
    sequence(rule, P)
    source(rule, P)
    directory(rule, P)
    collector(rule, P)
    walker(rule, P)
    for k, n in (("lazy", 4), ("sequence", 3), ("source", 1), ("round", 3), ("handed-over", 1), ("collector", 4), ("walker", 4)):
        rule.floor(k, n)


def method(P, ty, fn):
    r = [k for k in P.bodies if "#" not in k and "{" not in k and "::" + ty in k.split(" as ")[0] and k.split("::")[-1] == fn and (fn != "read" or " as std::io" in k)]
    return r[0] if len(r) == 1 else None


def get(rule, P, ty, fn):
    k = method(P, ty, fn)
    if k is None:
        rule.bad("%s::%s" % (ty, fn), SEQ, "%s::%s is not there" % (ty, fn))
        return None, (), None
    eng = flow.Engine(P)
    ps = eng.run(k)
    rule.ran(eng, ps, k)
    b = P.bodies[k]
    return k, ps, b.locals[2][1] if b.argc > 1 else None


def reads(p):
    return [e for e in p.ev if e.kind == "call" and e.name.startswith("Read::")]


def opens(p):
    return [e for e in p.ev if e.kind == "call" and e.name in ("File::open", "OpenOptions::open")]


def whole(e, buf):
    """the read gets the caller's buffer as it is"""
    a = e.args[1]
    return a.op == "r" and a.a[1] is mk("D", mk("p", buf)) and not a.a[2]


# ---------------------------------------------------------------- the lazy source

def own(f):
    """facts about the state the source was in"""
    return [x for x in subterms(f) if x is mk("d", mk("p", "self"))]


def entry_facts(q):
    out = []
    for f in q.facts:
        if own(f) and not any(x.op in ("call", "out", "pure") for x in subterms(f)):
            out.append(f)
    return out


def leads_to(p, q):
    """can the state p leaves be one q starts in?"""
    me = mk("d", mk("p", "self"))
    now = p.load(S, ())

    def sub_(t):
        path, x = [], t
        while x.op in ("f", "v"):
            path.append((x.op, x.a[1]))
            x = x.a[0]
        return project(now, tuple(reversed(path))) if x is me else None
    t = p.copy()
    for f in entry_facts(q):
        if not t.assume(rewrite(f, sub_)):
            return False
    return True


def unchanged(p, q):
    """p leaves what q's conditions are about as it found it"""
    now = p.load(S, ())
    for f in entry_facts(q):
        for x in subterms(f):
            if x.op == "f" and x.a[0] is mk("d", mk("p", "self")) and field(now, x.a[1]) is not x:
                return False
    return True


def lazy(rule, P):
    key, ps, buf = get(rule, P, "LazyFileReader", "read")
    if key is None:
        return
    where = loc(P, key)
    rets = [p for p in ps if p.kind == "return"]
    opening = [q for q in rets if opens(q)]
    good = [p for p in oks(ps)]
    if any(p.kind == "loop" for p in ps):
        rule.bad("LazyFileReader::read", where, "a read of a lazily opened source is not one step")
        return
    if not opening:
        rule.bad("LazyFileReader::read:open", where, "the source is never opened")
        return
    nk, nps, _ = get(rule, P, "LazyFileReader", "new")
    for p in nps:
        if opens(p):
            rule.bad("LazyFileReader::new:open", loc(P, nk), "the constructor opens the file")
        if p.kind == "return":
            st = p.copy()
            st.put(S, (), p.ret)
            if not any(leads_to(st, q) for q in opening):
                rule.bad("LazyFileReader::new:state", loc(P, nk), "a new source is not in the state that opens its file")
            for r in good:
                if not reads(r) and about_state(r, buf) and leads_to(st, r):
                    rule.bad("LazyFileReader::new:state", loc(P, nk), "a new source counts as read to its end")
    for q in opening:
        o = opens(q)
        a = unconv(q, o[0].vals[-1])
        if len(o) != 1 or not (a.op == "f" and a.a[0] is mk("d", mk("p", "self"))):
            rule.bad("LazyFileReader::read:open", o[0].where, "the file opened is %s, not the one of its path" % pp(a)[:100])
        if not q.entails(ne0(length(mk("d", mk("p", buf))))) :
            rule.bad("LazyFileReader::read:open", o[0].where, "the file is opened although the buffer may be empty")
    for p in good:
        rule.ok("lazy", "%s: [%s]" % (where, ", ".join(pp(f)[:60] for f in entry_facts(p))))
        for q in opening:
            if opens(p) and leads_to(p, q):
                rule.bad("LazyFileReader::read:once", opens(p)[0].where, "after the file was opened a later read opens it again")
            elif not unchanged(p, q) and leads_to(p, q) and not opens(p):
                rule.bad("LazyFileReader::read:once", where, "a read brings the source back to the state in which the file is opened")
        rd = reads(p)
        v = field(vfield(p.ret, "Ok"), "0")
        if not rd:
            if not p.entails(eq0(v)):
                rule.bad("LazyFileReader::read:data", where, "%s is returned without reading" % pp(v))
            continue
        if len(rd) != 1 or rd[0].name != "Read::read" or not whole(rd[0], buf) or v is not field(vfield(rd[0].ret, "Ok"), "0"):
            rule.bad("LazyFileReader::read:data", rd[0].where, "what is returned is not what one read of the file gave for the caller's buffer")
            continue
        src = rd[0].vals[0]
        src = src if src.op != "r" else p.load(src.a[1], src.a[2])
        fresh = opens(p) and src is field(vfield(opens(p)[0].ret, "Ok"), "0")
        held = not opens(p) and any(x is mk("d", mk("p", "self")) for x in subterms(src))
        if not fresh and not held:
            rule.bad("LazyFileReader::read:data", rd[0].where, "the source read is %s" % pp(src)[:100])
        end = p.copy()
        if end.assume(eq0(v)):
            if holds_file(end, src, rd[0]):
                rule.bad("LazyFileReader::read:close", where, "the file stays open after its end")
            if any(leads_to(end, q) for q in opening):
                rule.bad("LazyFileReader::read:once", where, "the file is opened again after its end")
        if not p.entails(eq0(v)):
            for r in good:
                if not reads(r) and about_state(r, buf):
                    m = p.copy()
                    if m.assume(ne0(v)) and not unchanged(m, r) and leads_to(m, r):
                        rule.bad("LazyFileReader::read:early", where, "the source counts as read to its end before a read gave nothing")
                    elif opens(p) and m.assume(ne0(v)) and leads_to(m, r):
                        rule.bad("LazyFileReader::read:early", where, "the source counts as read to its end before a read gave nothing")


def about_state(r, buf):
    """a path that returns nothing because of the state, not because of an empty buffer"""
    return not r.entails(eq0(length(mk("d", mk("p", buf)))))


def holds_file(p, src, rd):
    """does the source still hold the file that was read?"""
    now = p.load(S, ())
    base = mk("d", mk("p", "self"))
    x, path = src, []
    while x.op in ("f", "v"):
        path.append((x.op, x.a[1]))
        x = x.a[0]
    for y in subterms(now):
        if y.op == "out" and y.a[0] is rd.ret and y.a[1] == 0 or y is src and y is not base:
            if reach(p, now, y):
                return True
    if x is base and path:
        fld = [b for a, b in path if a == "f"][-1]
        v = field(now, fld)
        return p.variant_of(v) not in ("None",) and (v is field(base, fld) or any(z.op == "out" for z in subterms(v)))
    return False


def reach(p, now, y):
    """y is part of the state, and not only of what it was before"""
    def values(t):
        if t.op == "u":
            ch = {c[0] if isinstance(c, tuple) else None for c in t.a[1]}
            for c in t.a[1]:
                yield from values(c[1])
        elif t.op == "a":
            for z in t.a[3]:
                yield from values(z)
        else:
            yield t
    return any(y is z or any(y is s for s in subterms(z)) for z in values(now))


def unconv(p, v):
    for _ in range(20):
        if v.op == "call" and v.a[0] in PATHCONV:
            v = v.a[2][-1]
        elif v.op == "pure" and v.a[0] in PATHCONV:
            v = cvals(v)[-1]
        elif v.op == "r":
            v = p.load(v.a[1], v.a[2])
        elif v.op in ("d", "derefd") and v.a[0].op != "p" or v.op == "derefd":
            v = v.a[0]
        else:
            return v
    return v


# ---------------------------------------------------------------- one after another

def sequence(rule, P):
    key, ps, buf = get(rule, P, "SeqReader<", "read")
    if key is None:
        return
    where = loc(P, key)
    n = "SeqReader::read"
    me = mk("d", mk("p", "self"))
    blen = length(mk("d", mk("p", buf)))
    cells = set()
    for p in ps:
        if p.kind not in ("return", "loop") or p.kind == "return" and p not in oks(ps):
            continue
        rd = reads(p)
        for e in rd:
            a = e.args[0]
            i = a.a[2][-1] if a.op == "r" and a.a[1] is S and len(a.a[2]) >= 2 else None
            if i is None or i[0] != "i" or e.name != "Read::read" or not whole(e, buf):
                rule.bad(n + ":source", e.where, "what is read is %s, not one of the sources into the caller's buffer" % pp(e.vals[0])[:100])
                return
            o = origin(i[1]) or (origin_field(i[1]), None)
            c = o if isinstance(o, tuple) and o[1] is not None else None
            if i[1].op == "f" and i[1].a[0] is me:
                c = (S, (("f", i[1].a[1]),))
            if c is None or c[0] is not S:
                rule.bad(n + ":source", e.where, "the source read is the one at %s, which is no position that is kept" % pp(i[1]))
                return
            cells.add(c[1])
            if not p.entails(ne0(blen)):
                rule.bad(n + ":empty", e.where, "a source is asked with a buffer that may be empty, and its 0 taken for its end")
    if len(cells) != 1:
        rule.bad(n + ":source", where, "no single position says which source is read")
        return
    cp = cells.pop()
    sources = [e for p in ps for e in reads(p)][0].args[0].a[2][:-1]
    for p in ps:
        if p.kind not in ("return", "loop") or p.kind == "return" and p not in oks(ps):
            continue
        cur = p.load(S, cp)
        lp = [e for e in p.ev if e.kind == "loop"]
        start = p.init(S)
        pos = field(me, cp[-1][1])
        for e in lp:
            for h in e.havoc:
                if h[0] is S and cp[:len(h[1])] == h[1]:
                    pos = project(h[2], cp[len(h[1]):])
        rd = [e for e in reads(p) if not lp or p.ev.index(e) > p.ev.index(lp[-1])]
        if not only_reads(p.load(S, sources), me, sources):
            rule.bad(n + ":sources", where, "the list of sources is changed: %s" % pp(p.load(S, sources))[:120])
            return
        rule.ok("sequence", "%s %s" % (where, p.kind))
        if p.kind == "loop":
            if len(rd) == 1 and at(rd[0]) is pos and p.entails(eq0(okv(rd[0]))) and p.variant_of(rd[0].ret) == "Ok" and p.entails(eqi(cur, add(pos, ONE))):
                continue
            rule.bad(n + ":next", rd[0].where if rd else where, "the sequence goes on to %s although the source at %s may not be at its end" % (pp(cur), pp(pos)))
            return
        v = field(vfield(p.ret, "Ok"), "0")
        if not rd:
            none = p.entails(ge0(sub(pos, length(p.load(S, sources))))) or p.entails(ge0(sub(pos, length(field(me, sources[-1][1])))))
            if not p.entails(le(v, ZERO)) or not (p.entails(eq0(blen)) or none):
                rule.bad(n + ":end", where, "the sequence ends with %s although sources may be left" % pp(v))
                return
            if cur is not pos and not p.entails(eqi(cur, pos)):
                rule.bad(n + ":next", where, "the sequence moves on without reading")
                return
            continue
        last = rd[-1]
        k = pos
        for e in rd[:-1]:
            if at(e) is not k and not p.entails(eqi(at(e), k)) or not p.entails(eq0(okv(e))):
                rule.bad(n + ":next", e.where, "a source is left before its end")
                return
            k = add(k, ONE)
        if not p.entails(eqi(at(last), k)) or not p.entails(eqi(v, okv(last))) or not p.entails(ne0(v)):
            rule.bad(n + ":data", last.where, "what is returned (%s) is not what the current source gave, or may be nothing while sources are left" % pp(v)[:80])
            return
        if not p.entails(eqi(cur, k)):
            rule.bad(n + ":next", last.where, "the sequence moves on although the current source is not at its end")
            return
    for k in P.bodies:
        if "SeqReader" in k.split(" as ")[0] and "#" not in k and "{" not in k and ("Self" in ret_type(P, k) or "SeqReader<" in ret_type(P, k)) and k.split("::")[-1] in ("new", "from", "default"):
            eng = flow.Engine(P)
            nps = eng.run(k)
            rule.ran(eng, nps, k)
            for p in nps:
                if p.kind == "return":
                    c = project(p.ret, cp)
                    rs = project(p.ret, sources)
                    if not (isc(c, 0) or pp(c).startswith("Default::default")):
                        rule.bad(n + ":start", loc(P, k), "a new sequence starts at source %s" % pp(c))
                    b = P.bodies[k]
                    if b.argc and b.locals[1][1] and rs is not mk("p", b.locals[1][1]):
                        rule.bad(n + ":start", loc(P, k), "the sources of a new sequence are %s" % pp(rs)[:80])


def ret_type(P, k):
    return P.bodies[k].locals[0][0]


def origin_field(t):
    return None


def at(e):
    return e.args[0].a[2][-1][1]


def okv(e):
    return field(vfield(e.ret, "Ok"), "0")


def only_reads(v, me, path):
    """the sources, changed by nothing but reads of some of them"""
    while True:
        if v is project(me, path):
            return True
        if v.op == "ue":
            if v.a[2].op not in ("out", "oute"):
                return False
            v = v.a[0]
        elif v.op in ("lve", "oute"):
            v = v.a[0]
        else:
            return False


def source(rule, P):
    """SourceReader: what it counts and digests is what it delivers"""
    key, ps, buf = get(rule, P, "SourceReader<", "read")
    if key is None:
        return
    where = loc(P, key)
    me = mk("d", mk("p", "self"))
    for p in oks(ps):
        rd = reads(p)
        v = field(vfield(p.ret, "Ok"), "0")
        if not rd and p.entails(eq0(v)) and p.entails(eq0(length(mk("d", mk("p", buf))))):
            continue
        if len(rd) != 1 or rd[0].name != "Read::read" or not whole(rd[0], buf) or not p.entails(eqi(v, okv(rd[0]))):
            rule.bad("SourceReader::read:data", where, "what is returned is not what one read of the source gave for the caller's buffer")
            return
        n = okv(rd[0])
        up = [e for e in p.ev if e.kind == "call" and e.name.endswith(("::update",))]
        size = p.load(S, (("f", "size"),))
        if not p.entails(eqi(size, add(field(me, "size"), n))):
            rule.bad("SourceReader::read:size", where, "the count goes to %s, not up by what was read" % pp(size)[:100])
        if p.entails(eq0(n)) and not up:
            rule.ok("source", where)
            continue
        a = up[0].args[1] if len(up) == 1 else None
        sl = a.a[2][-1] if a is not None and a.op == "r" and a.a[2] else None
        if a is None or a.op != "r" or a.a[1] is not mk("D", mk("p", buf)) or sl is None or sl[0] != "sl" or not isc(sl[1], 0) or not p.entails(eqi(sl[2], n)) or p.ev.index(up[0]) < p.ev.index(rd[0]):
            rule.bad("SourceReader::read:digest", where, "the digest is not updated with exactly the bytes just read")
            return
        rule.ok("source", where)


# ---------------------------------------------------------------- directories

def directory(rule, P):
    ks = [k for k in P.bodies if k.endswith("::encode_path") and "#" not in k]
    if len(ks) != 1:
        rule.bad("encode_path", "src/en_funcs.rs", "encode_path is not there")
        return
    key = ks[0]
    col = collectors(P)
    op = {k for k in P.bodies if "#" not in k and "{" not in k and k.split("::")[-1] in ("push_archive_entry", "push_archive_entries", "from_path", "create_archive_entry")}
    op |= {k for k in P.bodies if k.split("::")[-1] == "new" and ("::SeqReader" in k or "::LazyFileReader" in k or "::SourceReader" in k)} | set(col)
    eng = flow.Engine(P, opaque=op)
    ps = eng.run(key)
    rule.ran(eng, ps, key)
    b = P.bodies[key]
    src = [b.locals[i][1] for i in range(1, b.argc + 1) if b.locals[i][0].startswith(("impl AsRef<", "P", "&std::path::Path"))][:1]
    where = loc(P, key)
    D = Dir(rule, P, ps, key, col, src[0] if src else "src", where)
    for p in oks(ps):
        D.success(p)
    D.constructors()


def collectors(P):
    """functions of the library that list directories and record paths"""
    return [k for k in P.bodies if "#" not in k and "{" not in k and "sevenz_rust" in k
            and any(short_(c) in ("Path::read_dir", "fs::read_dir") for _, c in P.call_sites(P.bodies[k]))
            and any("PathBuf>" in P.bodies[k].locals[i][0] and "&mut" in P.bodies[k].locals[i][0] for i in range(1, P.bodies[k].argc + 1))]


def short_(c):
    return flow.short(c.get("fn", ""))


class Dir:
    def __init__(self, rule, P, ps, key, col, src, where):
        self.rule, self.P, self.ps, self.key, self.col, self.src, self.where = rule, P, ps, key, col, src, where

    def bad(self, key, where, text):
        self.rule.bad("encode_path:" + key, where or self.where, text)

    def constructors(self):
        """the lazy source keeps the path it is given"""
        k, ps, _ = get(self.rule, self.P, "LazyFileReader", "new")
        if k is None:
            return
        b = self.P.bodies[k]
        for p in ps:
            if p.kind == "return" and not any(x is mk("p", b.locals[1][1]) for x in subterms(p.ret)):
                self.bad("lazy", loc(self.P, k), "a lazy source does not keep its path")

    def collected(self, v):
        """v is the list the collector made for the source directory"""
        for _ in range(6):
            if v.op == "out" and v.a[0].op == "call":
                c = v.a[0]
                e = [e for p in self.ps for e in p.ev if e.ret is c]
                if e and e[0].x in self.col:
                    return e[0]
            if v.op == "oute" and v.a[1].op == "call" and re.match(r"slice::(sort|reverse)", v.a[1].a[0]):
                v = v.a[0]          # another order of the same paths
                continue
            if v.op == "lve":
                v = v.a[0]
                continue
            break
        return None

    def success(self, p):
        loops = [e for e in p.ev if e.kind == "loop"]
        main = None
        for e in p.ev:
            if e.kind == "next" and e.name == "done" and seq_of(e) is not None and self.collected(seq_of(e)):
                main = e
        if main is None:
            if any(e.kind == "call" and e.x in self.col for e in p.ev):
                self.bad("all", None, "success although not all of the collected paths were gone through")
            else:
                self.bad("all", None, "success without collecting the paths")
            return
        it = main.vals[0]
        if not (it.op == "it" and it.a[0] in ("vec", "seq")):
            self.bad("all", main.where, "the collected paths are not all gone through in order: %s" % pp(it)[:100])
            return
        c = self.collected(seq_of(main))
        if unconv(p, c.vals[0]) is not mk("p", self.src) or p.variant_of(c.ret) != "Ok":
            self.bad("all", c.where, "the paths collected are those of %s" % pp(c.vals[0])[:80])
            return
        if not any(len(v.a) and v.op == "a" or any(x is v for x in (mk("p", "filter"), mk("d", mk("p", "filter")))) for v in c.vals[2:]):
            self.bad("all", c.where, "the caller's filter is not what the collector gets")
        its = iterations(self.ps, main)
        seqs = {}
        for q, x in its:
            self.round(q, x, main, seqs)
        # what is pending at the end
        le_ = [e for e in p.ev[:p.ev.index(main)] if e.kind == "loop"][-1]
        pend = self.pending(le_, its)
        if pend is None:
            return
        E, F = pend
        fl = self.flushes(p, p.ev.index(main))
        for e in fl:
            if p.variant_of(e.ret) != "Ok":
                self.bad("end", e.where, "success although the pending entries were not accepted")
        if not E:
            return
        ev, fv = E[2], F[2]
        if not fl:
            if not (p.entails(eq0(length(ev))) or p.entails(eq0(length(fv)))):
                self.bad("end", None, "success with entries pending that were never handed over")
            return
        if len(fl) != 1 or fl[0].vals[1] is not ev or self.sources(p, fl[0].vals[2]) is not fv:
            self.bad("end", fl[0].where, "at the end not the pending entries and sources are handed over: %s / %s" % (pp(fl[0].vals[1])[:60], pp(fl[0].vals[2])[:60]))
            return
        self.rule.ok("handed-over", fl[0].where)

    def flushes(self, p, start=0):
        return [e for e in p.ev[start:] if e.kind == "call" and e.name.endswith("::push_archive_entries")]

    def sources(self, p, v):
        while v.op == "call" and v.a[0] in ("SeqReader::new", "From::from", "Into::into"):
            v = v.a[2][0]
        return v

    def pending(self, le_, its):
        """(cell of the pending entries, cell of the pending sources) of the loop, or (None, None)"""
        E = F = None
        for q, x in its:
            st = [i for i, e in enumerate(q.ev) if e.kind == "loop" and e.x == le_.x]
            for e in self.flushes(q, st[-1] if st else 0):
                pass
        for h in le_.havoc:
            root, path, lv, old = h
            vals = [q.load(root, path) for q, x in its]
            for q, x in its:
                for kind, *r in pieces(q, q.load(root, path)):
                    if kind == "push" and self.entry_of(q, r[0], x) is not None:
                        E = h
                    if kind == "push" and self.source_of(q, r[0], x) is not None:
                        F = h
        if (E is None) != (F is None):
            self.bad("pair", le_.where, "entries are kept without their sources, or sources without entries")
            return None
        for h, what in ((E, "entries"), (F, "sources")):
            if h is not None and not (h[3].op in ("empty",) or pp(h[3]).startswith("empty(")):
                self.bad("start", le_.where, "the pending %s do not start empty: %s" % (what, pp(h[3])[:60]))
        return E, F

    def item(self, x):
        return elem(x.vals[2], x.vals[1])

    def entry_of(self, q, v, x):
        """True/False: v is an entry for the item of the round, or None when v is no entry"""
        if v.op == "call" and v.a[0].split("::")[-1] in ("from_path", "create_archive_entry"):
            a = v.a[2]
            return unconv(q, a[0]) is self.item(x) and self.named(q, a[1], x)
        if v.op == "u" and v.a[0].op == "call":
            return self.entry_of(q, v.a[0], x)
        return None

    def named(self, q, v, x):
        for _ in range(20):
            if v.op == "call" and v.a[0] in NAMECONV:
                v = v.a[2][-1]
            elif v.op == "pure" and v.a[0] in NAMECONV:
                v = cvals(v)[-1]
            elif v.op == "r":
                v = q.load(v.a[1], v.a[2])
            elif v.op == "d":
                v = v.a[0]
            elif v.op == "f" and v.a[0].op == "v" and v.a[0].a[1] in ("Ok", "Some") and v.a[1] == "0":
                v = v.a[0].a[0]
            elif v.op == "derefd":
                v = v.a[0]
            else:
                break
        return v.op in ("call", "pure") and v.a[0] == "Path::strip_prefix" and unconv(q, cvals(v)[0]) is self.item(x) and unconv(q, cvals(v)[1]) is mk("p", self.src)

    def source_of(self, q, v, x):
        """"lazy"/"file" for a source of the item, False for one of something else, None when v is no source"""
        for _ in range(10):
            if v.op == "call" and v.a[0] in SRCCONV:
                v = v.a[2][-1]
            elif v.op == "a" and v.a[0] == "adt" and v.a[1].endswith("SourceReader"):
                v = field(v, "reader")
            else:
                break
        if v.op == "call" and v.a[0].endswith("LazyFileReader::new"):
            return "lazy" if unconv(q, v.a[2][0]) is self.item(x) else False
        if v.op == "f" and v.a[0].op == "v" and v.a[0].a[1] == "Ok" and v.a[0].a[0].op == "call" and v.a[0].a[0].a[0] == "File::open":
            return "file" if unconv(q, v.a[0].a[0].a[2][-1]) is self.item(x) else False
        return None

    def round(self, q, x, main, seqs):
        st = [i for i, e in enumerate(q.ev) if e.kind == "loop" and e.x == q.x["loop"]]
        i0 = st[-1] if st else 0
        le_ = q.ev[i0]
        direct = [e for e in q.ev[i0:] if e.kind == "call" and e.name.endswith("::push_archive_entry")]
        fl = self.flushes(q, i0)
        E, F = self.cells(le_)
        if (E is None) != (F is None):
            return              # judged in pending()
        for e in direct + fl:
            if q.variant_of(e.ret) != "Ok":
                self.bad("round", e.where, "the round goes on although the entry was not accepted")
        where = (direct or fl or [x])[0].where
        n = 0
        for e in direct:
            s = e.vals[2]
            ok_ = q.variant_of(s) == "Some" and self.source_of(q, field(vfield(s, "Some"), "0"), x)
            if not self.entry_of(q, e.vals[1], x) or not ok_:
                self.bad("pair", e.where, "an entry is pushed with a source that is not of the same collected path: %s, %s" % (pp(e.vals[1])[:80], pp(s)[:80]))
                return
            n += 1
        # deferred: what was pending, in order, is handed over or still pending, and this item is added to both at the same place
        if E is not None:
            es = [f.vals[1] for f in fl] + [q.load(E[0], E[1])]
            fs = [self.sources(q, f.vals[2]) for f in fl] + [q.load(F[0], F[1])]
            le1 = [self.shape(q, v, E, x, self.entry_of) for v in es]
            lf1 = [self.shape(q, v, F, x, self.source_of) for v in fs]
            if None in le1 or None in lf1:
                self.bad("pair", where, "the pending entries become %s, the pending sources %s" % (pp(es[-1])[:90], pp(fs[-1])[:90]))
                return
            if [[k for k in s] for s in le1] != [[k for k in s] for s in lf1]:
                self.bad("pair", where, "entries and sources are not handed over together")
                return
            flat = [k for s in le1 for k in s]
            if flat not in (["old", "item"], ["old"]):
                self.bad("pair", where, "the pending entries are not kept in order: %s" % flat)
                return
            n += flat.count("item")
            if "item" in flat:
                for v in fs:
                    for kind, *r in pieces(q, v):
                        if kind == "push" and self.source_of(q, r[0], x) == "file":
                            self.bad("lazy", where, "a source of a solid block is opened before its turn")
                            return
        elif fl:
            self.bad("pair", fl[0].where, "a block is written of entries that do not come from the collected paths")
            return
        if n != 1:
            self.bad("round", where, "a collected path gets %d entries" % n)
            return
        self.rule.ok("round", "%s" % where)

    def cells(self, le_):
        its = [(q, x) for q in self.ps if q.kind == "loop" and q.x["loop"] == le_.x for x in q.ev if x.kind == "next" and x.name == "item"]
        E = F = None
        for h in le_.havoc:
            for q, x in its:
                vs = [q.load(h[0], h[1])]
                for f in self.flushes(q):
                    vs += [f.vals[1], self.sources(q, f.vals[2])]
                for v in vs:
                    pc = pieces(q, v)
                    if not any(k == "lv" and r[0] is h[2] for k, *r in pc) and v is not q.load(h[0], h[1]):
                        continue
                    for kind, *r in pc:
                        if kind == "push" and self.entry_of(q, r[0], x) is not None:
                            E = h
                        if kind == "push" and self.source_of(q, r[0], x) is not None:
                            F = h
        return E, F

    def shape(self, q, v, h, x, of):
        out = []
        for kind, *r in pieces(q, v):
            if kind == "lv" and r[0] is h[2] or kind == "base" and r[0] is h[2]:
                out.append("old")
            elif kind == "base" and (r[0].op == "empty" or pp(r[0]).startswith("empty(") or isc(length(r[0]), 0)):
                continue
            elif kind == "push" and of(q, r[0], x):
                out.append("item")
            else:
                return None
        return out


# ---------------------------------------------------------------- collecting

def children(rule, P, key, ps, name, where, kind, recursion):
    """every round of the loop over a directory hands its item on, unless it is neither a file nor a directory"""
    n = 0
    for q in ps:
        if q.kind != "loop":
            continue
        st = [i for i, e in enumerate(q.ev) if e.kind == "loop" and e.x == q.x["loop"]]
        evs = q.ev[st[-1] if st else 0:]
        nx = [e for e in evs if e.kind == "call" and e.name == "Iterator::next"]
        if not nx:
            rule.bad(name + ":children", where, "a loop that is not one over a directory")
            return 0
        item = field(vfield(field(vfield(nx[0].ret, "Some"), "0"), "Ok"), "0")
        rec = [e for e in evs if e.kind == "call" and e.x == key]
        if not rec:
            ft = [e for e in evs if e.kind == "call" and e.name in ("FileType::is_file", "FileType::is_dir") or e.kind == "call" and e.name in ("Path::is_file", "Path::is_dir")]
            no = {e.name.split("::")[-1] for e in ft if truth(q, e.ret) is False and about(q, e.vals[0], item)}
            if no < {"is_file", "is_dir"}:
                rule.bad(name + ":children", nx[0].where, "an item of a directory is passed over although it may be a file or a directory")
                return 0
        elif len(rec) != 1 or not about(q, rec[0].vals[0], item, only=True) or q.variant_of(rec[0].ret) != "Ok" or not recursion(q, rec[0]):
            rule.bad(name + ":children", rec[0].where, "an item of a directory is not handed on exactly once, as it is and with the same filter and list")
            return 0
        n += 1
        rule.ok(kind, "%s round" % where)
    return n


def about(q, v, item, only=False):
    for _ in range(20):
        if v is item:
            return True
        if v.op in ("call", "pure") and (v.a[0] in PATHCONV or v.a[0] in ("DirEntry::path",) or not only and v.a[0] in ("DirEntry::file_type", "DirEntry::metadata", "Metadata::file_type")):
            v = cvals(v)[-1]
        elif v.op == "f" and v.a[0].op == "v" and v.a[0].a[1] == "Ok":
            v = v.a[0].a[0]
        elif v.op == "r":
            v = q.load(v.a[1], v.a[2])
        elif v.op in ("d", "derefd"):
            v = v.a[0]
        else:
            return False
    return False


def listing(p, evs, src):
    return [e for e in evs if e.kind == "call" and e.name in ("Path::read_dir", "fs::read_dir") and unconv(p, e.vals[0]) is mk("p", src)]


def collector(rule, P):
    cs = collectors(P)
    if len(cs) != 1:
        rule.bad("collect_file_paths", "src/en_funcs.rs", "no single function collects the paths of a directory")
        return
    key = cs[0]
    eng = flow.Engine(P)
    ps = eng.run(key)
    rule.ran(eng, ps, key)
    b = P.bodies[key]
    names = {}
    for i in range(1, b.argc + 1):
        ty, nm = b.locals[i]
        names["list" if "PathBuf>" in ty else "filter" if "Fn" in ty or "bool" in ty else "src"] = nm
    where = loc(P, key)
    src, lst, flt = names.get("src"), names.get("list"), names.get("filter")
    L = mk("D", mk("p", lst))
    for p in oks(ps):
        v = p.load(L, ())
        base = mk("d", mk("p", lst))
        cb = [e for e in p.ev if e.kind == "call" and e.name == "callback"]
        if len(cb) != 1 or unconv(p, cb[0].vals[1]) is not mk("p", src):
            rule.bad("collect:filter", where, "the filter is not asked exactly once about the path itself")
            return
        if truth(p, cb[0].ret) is False:
            if v is not base:
                rule.bad("collect:filter", where, "a path the filter refuses is recorded")
                return
            rule.ok("collector", where + " refused")
            continue
        isdir = [e for e in p.ev if e.kind == "call" and e.name in ("Path::is_dir", "Path::is_file") and unconv(p, e.vals[0]) is mk("p", src)]
        d = any(e.name == "Path::is_dir" and truth(p, e.ret) for e in isdir)
        f = any(e.name == "Path::is_dir" and truth(p, e.ret) is False or e.name == "Path::is_file" and truth(p, e.ret) for e in isdir)
        if f:
            if v.op != "push" or v.a[0] is not base or unconv(p, v.a[1]) is not mk("p", src):
                rule.bad("collect:file", where, "a file the filter accepts is not recorded exactly once: %s" % pp(v)[:80])
                return
            rule.ok("collector", where + " file")
        elif d:
            if not listing(p, p.ev, src) or v.op not in ("lv", "lve") or p.x.get(("init", v)) is not base:
                rule.bad("collect:dir", where, "what is in a directory is not gone through: %s" % pp(v)[:80])
                return
            nx = [e for e in p.ev if e.kind == "call" and e.name == "Iterator::next"]
            if not nx or p.variant_of(nx[-1].ret) != "None":
                rule.bad("collect:dir", where, "the listing of a directory is left before its end")
                return
            rule.ok("collector", where + " directory")
        else:
            rule.bad("collect:kind", where, "success on a path where it is not known whether the path is a directory")
            return

    def same(q, e):
        fs = [x for x in e.args[1:]]
        return any(x.op == "r" and x.a[1] is L for x in fs) and (flt is None or any(x is mk("p", flt) or x.op == "r" and x.a[1] is mk("D", mk("p", flt)) or x is mk("d", mk("p", flt)) for x in fs + list(e.vals[1:])))
    children(rule, P, key, ps, "collect", where, "collector", same)
    for q in ps:
        if q.kind != "loop":
            continue
        le = [e for e in q.ev if e.kind == "loop" and e.x == q.x["loop"]][-1]
        was = next((lv for root, path, lv, old in le.havoc if root is L and not path), None)
        rec = [e for e in q.ev[q.ev.index(le):] if e.kind == "call" and e.x == key]
        v = q.load(L, ())
        if len(rec) == 1 and v.op == "out" and v.a[0] is rec[0].ret:
            v = next((y for x, y in zip(rec[0].args, rec[0].vals) if x.op == "r" and x.a[1] is L), None)
        if was is not None and v is not was:
            rule.bad("collect:extra", where, "going through a directory changes the list of paths other than by what is found below its items: %s" % pp(q.load(L, ()))[:100])
            return


def walker(rule, P):
    """compress_path: one entry per path, in one walk"""
    ks = [k for k in P.bodies if k.endswith("::compress_path") and "#" not in k]
    if not ks:
        return
    key = ks[0]
    op = {k for k in P.bodies if "#" not in k and "{" not in k and k.split("::")[-1] in ("push_archive_entry", "from_path", "create_archive_entry")}
    eng = flow.Engine(P, opaque=op)
    ps = eng.run(key)
    rule.ran(eng, ps, key)
    b = P.bodies[key]
    src, root, z = [b.locals[i][1] for i in range(1, 4)]
    where = loc(P, key)
    for p in oks(ps):
        pu = [e for e in p.ev if e.kind == "call" and e.name.endswith("::push_archive_entry")]
        isdir = [truth(p, e.ret) for e in p.ev if e.kind == "call" and e.name == "Path::is_dir" and unconv(p, e.vals[0]) is mk("p", src)]
        if len(pu) != 1 or p.variant_of(pu[0].ret) != "Ok" or not isdir or isdir[0] is None:
            rule.bad("walk:entry", where, "a path gets %d entries" % len(pu))
            return
        e, s = pu[0].vals[1], pu[0].vals[2]
        good = e.op == "call" and e.a[0].split("::")[-1] in ("from_path", "create_archive_entry") and unconv(p, e.a[2][0]) is mk("p", src) and relative(p, e.a[2][1], src, root)
        v = p.variant_of(s)
        if isdir[0]:
            nx = [x for x in p.ev if x.kind == "call" and x.name == "Iterator::next"]
            if v != "None" or not listing(p, p.ev, src) or not nx or p.variant_of(nx[-1].ret) != "None":
                rule.bad("walk:dir", where, "a directory is not added as an entry without data and gone through to its end")
                return
        elif v == "Some":
            o = unsrc(p, field(vfield(s, "Some"), "0"))
            if not (o.op == "call" and o.a[0] == "File::open" and unconv(p, o.a[2][-1]) is mk("p", src)):
                rule.bad("walk:source", where, "the source of an entry is %s" % pp(s)[:80])
                return
        else:
            rule.bad("walk:source", where, "a file is added without its data")
            return
        if not good:
            rule.bad("walk:entry", where, "the entry of a path is %s" % pp(e)[:100])
            return
        rule.ok("walker", where)

    def same(q, e):
        return any(x.op == "r" and x.a[1] is mk("D", mk("p", z)) for x in e.args) and any(x is mk("p", root) or x is mk("d", mk("p", root)) or x.op == "r" and x.a[1] is mk("D", mk("p", root)) for x in e.args)
    children(rule, P, key, ps, "walk", where, "walker", same)


def unsrc(p, v):
    while v.op == "call" and v.a[0] in SRCCONV:
        v = v.a[2][-1]
    return v.a[0].a[0] if v.op == "f" and v.a[0].op == "v" and v.a[0].a[1] == "Ok" else v


def relative(p, v, src, root):
    for _ in range(20):
        if v.op in ("call", "pure") and v.a[0] in NAMECONV:
            v = cvals(v)[-1]
        elif v.op == "r":
            v = p.load(v.a[1], v.a[2])
        elif v.op in ("d", "derefd"):
            v = v.a[0]
        elif v.op == "f" and v.a[0].op == "v" and v.a[0].a[1] in ("Ok", "Some"):
            v = v.a[0].a[0]
        else:
            break
    return v.op in ("call", "pure") and v.a[0] == "Path::strip_prefix" and unconv(p, cvals(v)[0]) is mk("p", src) and unconv(p, cvals(v)[1]) in (mk("p", root), mk("d", mk("p", root)))
