"""Counting / checksumming adapters are transparent and exact."""
from sa.terms import *
from sa import adapters as A, mir

RULE = """Contract of every byte-counting or checksumming Read/Write adapter, decided on every dataflow path of its
read/write method (callees inlined): the caller's buffer itself is handed to the wrapped stream, exactly once; the
count returned is the count the stream reported; each counter field changes by exactly that count; the digest is
updated exactly once with exactly buf[..n] (after the read, for readers); a failed inner call changes no counter and
no digest; flush goes to the wrapped stream. A path that returns data without these updates, or with other values, is
a violation."""

# adapter type -> (mode, has digest); the types are the slots of the rule
TABLE = {
    "lzma_rust::enc::counting::CountingWriter": ("w", False),
    "sevenz_rust::writer::CompressWrapWriter": ("w", True),
    "sevenz_rust::writer::seq_reader::SourceReader": ("r", True),
    "sevenz_rust::reader::Crc32VerifyingReader": ("r", True),
}


def contract(rule, P, ty, mode, digest, limited=False):
    trait, meth = (A.READ, "read") if mode == "r" else (A.WRITE, "write")
    im = A.impls(P, trait, meth)
    if ty not in im:
        rule.bad("missing:" + ty, ty, "no %s::%s implementation found for the adapter type" % (trait, meth))
        return
    key, it = im[ty]
    ps, e = A.paths(P, key, mode, rule)
    where = "%s (%s)" % (key, P.bodies[key].file())
    name = ty.split("::")[-1]
    okpaths = 0
    for p in ps:
        if p.kind == "loop":
            # a retry loop may only go round without having moved data
            moved = [x for x in p.inner if p.variant(x) != "Err"]
            if moved:
                rule.bad("%s:retry" % name, where, "the inner call is repeated after it moved data: %s" % moved[0])
            continue
        if p.kind != "return":
            continue
        ch = p.changes()
        nums = [(l, o, n) for l, o, n in ch if is_num(o, n)]
        good = [x for x in p.inner if p.variant(x) == "Ok"]
        if p.retv == "Err":
            # failed: no counting, no checksum unless data was moved and rejected afterwards
            if not good and (p.upd or nums):
                rule.bad("%s:err-counts" % name, where, "a failed inner call still changes %s" % (p.upd or nums))
            if not good:
                okpaths += 1
            continue
        if p.retv != "Ok":
            rule.bad("%s:result" % name, where, "result is not decided by the inner call: %s" % p.st.ret)
            continue
        if not p.inner:
            if isc(p.ret, 0):
                if not (limited or p.st.entails(eq0(p.buflen))):
                    rule.bad("%s:no-inner" % name, where, "returns Ok(0) without asking the wrapped stream, facts %s" % p.st.facts)
                okpaths += 1
                continue
            rule.bad("%s:no-inner" % name, where, "returns Ok(%s) without an inner call" % p.ret)
            continue
        if len(good) != 1:
            rule.bad("%s:calls" % name, where, "%d successful inner calls on one path" % len(good))
            continue
        ev = good[0]
        n = p.n(ev)
        rng = p.bufarg(ev)
        if rng is None or not isc(rng[0], 0) or not p.st.entails(eqi(rng[1], p.buflen)):
            rule.bad("%s:buffer" % name, ev.where, "the wrapped stream gets %s instead of the caller's buffer" % ev.args[1])
        if not p.st.entails(eqi(p.ret, n)):
            rule.bad("%s:count" % name, where, "returns Ok(%s) although the stream reported %s" % (p.ret, n))
        nzero = p.st.entails(eq0(n))
        # counters
        cnt = 0
        olds = [o for _, o, _ in nums] + [o for _, o in ints(p, P, ty)]
        for l, o, nw in nums:
            d = sub(nw, o)
            absd = any(p.st.entails(eqi(nw, add(x, n))) for x in olds)
            neg_ = p.st.entails(eqi(d, scale(n, -1)))
            if absd or neg_ or p.st.entails(eqi(d, n)):
                cnt += 1
            else:
                rule.bad("%s:counter:%s" % (name, loc(l)), where, "counter %s changes by %s, the stream reported %s" % (loc(l), d, n))
        if not cnt and not nzero:
            rule.bad("%s:uncounted" % name, where, "%s bytes pass without any counter change, facts %s" % (n, p.st.facts))
        if digest:
            if len(p.upd) > 1:
                rule.bad("%s:digest-twice" % name, where, "the checksum is updated %d times on one path" % len(p.upd))
            elif not p.upd:
                if not nzero:
                    rule.bad("%s:digest-missing" % name, where, "%s bytes pass without updating the checksum, facts %s" % (n, p.st.facts))
            else:
                u = p.upd[0]
                r = A.slice_of(P, u, 1, p.buf)
                exact = r is not None and isc(r[0], 0) and p.st.entails(eqi(r[1] if r[1] is not None else p.buflen, n))
                if not exact:
                    rule.bad("%s:digest-data" % name, u.where, "checksum covers %s, not buf[..%s]" % (u.args[1], n))
                if mode == "r" and p.st.ev.index(u) < p.st.ev.index(ev):
                    rule.bad("%s:digest-order" % name, u.where, "checksum is updated before the data was read")
                if u.args[0].op == "r" and not reaches(u.args[0].a[1], p.self):
                    rule.bad("%s:digest-target" % name, u.where, "the digest updated is not the adapter's: %s" % u.args[0])
        okpaths += 1
    rule.ok("adapter", "%s: %d paths" % (name, len(ps)))
    if okpaths < 2:
        rule.bad("%s:paths" % name, where, "only %d decided paths" % okpaths)
    # flush
    if mode == "w":
        fk = A.impls(P, A.WRITE, "flush").get(ty)
        if fk:
            fps, _ = A.paths(P, fk[0], "w", rule)
            for p in fps:
                if p.kind != "return" or p.retv == "Err":
                    continue
                fl = [x for x in p.st.ev if x.kind == "call" and x.name == "Write::flush"]
                if not fl:
                    rule.bad("%s:flush" % name, fk[0], "flush succeeds without flushing the wrapped stream")
            rule.ok("flush", name)


def reaches(root, selfroot):
    return any(x is selfroot.a[0] for x in subterms(root))


def loc(l):
    return pploc(l[0], l[1])


def is_num(o, n):
    if o.op == "out" or n.op in ("out", "oute", "a", "call", "empty", "rep", "resized", "push", "cat", "box"):
        return False
    if o.op == "c" or n.op in ("c", "lin"):
        return True
    return tyof.get(o) in INT or tyof.get(n) in INT


def ints(p, P, ty):
    """integer fields of self, with their values on entry"""
    out = []
    a = P.adts.get(ty)
    if a:
        for f in a["variants"][0]["fields"]:
            if f["ty"] in INT:
                out.append((f["name"], p.old((("f", f["name"]),))))
            if f["ty"].startswith("&mut ") and f["ty"][5:] in INT:
                out.append((f["name"], mk("d", p.old((("f", f["name"]),)))))
    return out


def check(rule, P):
    for ty, (mode, dig) in TABLE.items():
        contract(rule, P, ty, mode, dig, limited=ty.endswith("Crc32VerifyingReader"))
    rule.floor("adapter", 4)
    rule.floor("flush", 2)
    rule.assumptions += ["Read::read / Write::write return at most the buffer length (their documented contract)",
                         "crc::Digest::update computes CRC-32 incrementally"]
