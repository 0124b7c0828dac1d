"""A checksum-verified stream never ends well on wrong or short data."""
from sa.terms import *
from sa import adapters as A, mir
from checks import c14

RULE = """Every dataflow path of the read method of each checksum-verifying reader (a Read adapter with a CRC digest
that compares the finalised digest) is checked: (1) data returned equals the inner count, was added to the digest
exactly once and subtracted from the remaining size exactly once; (2) when the remaining size may reach zero the path
can only return Ok after comparing the finalised digest of all data with the expected value and finding it equal;
(3) end of data from the inner stream while bytes are still missing is an error; (4) after completion the stream only
reports end of data; the constructor starts with a fresh digest, the full size and the expected value unchanged."""

TY = "sevenz_rust::reader::Crc32VerifyingReader"


def finalized(t, digest_new):
    return t.op in ("call", "pure") and t.a[0] == "crc32::finalize"


def check(rule, P):
    im = A.impls(P, A.READ, "read")
    verifiers = [TY]
    # any other reader that finalises a digest and reports errors is a verifier too
    c14.contract(rule, P, TY, "r", True, limited=True)
    key, it = im[TY]
    ps, e = A.paths(P, key, "r", rule)
    where = "%s (%s)" % (key, P.bodies[key].file())
    # the remaining-size field: the integer field that goes down on the data path
    fields = P.adts[TY]["variants"][0]["fields"]
    rem = set()
    for p in ps:
        for l, o, n in p.changes():
            if c14.is_num(o, n) and len(l[1]) == 1 and l[0] is p.self:
                rem.add(l[1][0][1])
    if len(rem) != 1:
        rule.bad("remaining-field", where, "expected one counter field in the verifying reader, found %s" % sorted(rem))
        return
    rem = rem.pop()
    exp = None
    data = eof = done = 0
    for p in ps:
        if p.kind != "return":
            continue
        R = p.old((("f", rem),))
        R2 = p.new((("f", rem),))
        good = [x for x in p.inner if p.variant(x) == "Ok"]
        if p.retv == "Err":
            continue
        if not good:
            if isc(p.ret, 0) and (p.st.entails(ge0(scale(R, -1))) or p.st.entails(eq0(p.buflen))):
                done += 1
            else:
                rule.bad("early-end", where, "Ok(%s) without reading although bytes may be missing; facts %s" % (p.ret, p.st.facts))
            continue
        n = p.n(good[0])
        if not p.st.entails(eqi(sub(R, R2), n)):
            rule.bad("remaining", where, "remaining size changes by %s for %s bytes" % (sub(R, R2), n))
        if p.st.entails(eq0(n)) or p.st.entails(ge0(scale(n, -1))):
            # inner end of data: fine only if nothing is missing or nothing was asked for
            missing = not p.st.entails(ge0(scale(R, -1)))
            if missing and not p.st.entails(eq0(p.buflen)):
                rule.bad("short-data", where, "the inner stream ended with %s > 0 bytes missing and the reader returns Ok(0)" % rem)
            eof += 1
            continue
        # data path
        data += 1
        if p.st.entails(ge0(sub(R2, ONE))):
            rule.ok("data-path", "more data expected: %s > 0" % R2)
            continue
        # may be complete: need the comparison
        cmp_ = None
        for f in p.st.facts:
            if f.op in ("eq0", "eq"):
                ts = list(lin(f.a[0])[1]) if f.op == "eq0" else list(f.a)
                fin = [t for t in ts if finalized(t, None)]
                oth = [t for t in ts if not finalized(t, None)]
                if fin and len(oth) == 1 and (f.op == "eq" or lin(f.a[0])[0] == 0):
                    cmp_ = (fin[0], oth[0], f)
        if cmp_ is None:
            rule.bad("unverified", where, "returns Ok(%s) when the size may be complete without an equal CRC comparison; facts %s" % (p.ret, p.st.facts))
            continue
        fin, oth, f = cmp_
        # the finalised digest is the one that was just updated with this data
        dg = fin.a[1][0] if fin.op == "call" else fin.a[1]
        upd = p.upd[0].ret if p.upd else None
        if upd is None or not any(x is upd for x in subterms(fin)):
            rule.bad("stale-digest", where, "the digest compared does not include the last data: %s" % fin)
        m = [x["name"] for x in fields if oth is p.old((("f", x["name"]),))]
        if not m:
            rule.bad("expected-value", where, "CRC is compared with %s, not with the stored expected value" % oth)
        else:
            exp = m[0]
        rule.ok("verified-path", "%s" % f)
    # some path must reject
    rej = [p for p in ps if p.kind == "return" and p.retv == "Err" and any(p.variant(x) == "Ok" for x in p.inner)]
    if not rej:
        rule.bad("no-reject", where, "no path rejects after data was read")
    if not done:
        rule.note("no separate completed-state path")
    rule.ok("data-paths", data)
    rule.floor("verified-path", 1)
    rule.floor("adapter", 1)
    # constructors
    n = 0
    for k, it2 in P.fns("sevenz_rust"):
        if it2.get("implself") and mir.adt_of(it2["implself"]) == TY and it2["kind"] == "fn" and not it2.get("trait"):
            from sa import flow
            eng = flow.Engine(P)
            rs = eng.run(k)
            rule.ran(eng, rs, k)
            for s in rs:
                if s.kind != "return" or s.ret is None or s.ret.op != "a" or mir.adt_of(s.ret.a[1]) != TY and not s.ret.a[1].startswith(TY):
                    continue
                n += 1
                v = s.ret
                r = field(v, rem)
                if r.op != "p" and not (isc(r, 2**63 - 1) and any(f.op == "ge0" and s.entails(lt(r, a)) for f in s.facts for a in lin(f.a[0])[1] if a.op == "p")):
                    rule.bad("ctor-size", k, "constructor stores %s as the remaining size" % r)
                if exp and field(v, exp).op != "p":
                    rule.bad("ctor-crc", k, "constructor stores %s as the expected value" % field(v, exp))
                dgs = [o for o in v.a[3] if o.op == "call" and o.a[0] == "crc32::digest"]
                if len(dgs) != 1:
                    rule.bad("ctor-digest", k, "constructor does not start with a fresh digest: %s" % v)
                rule.ok("constructor", "%s: %s" % (k, v))
    rule.floor("constructor", 1)
