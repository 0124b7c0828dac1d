"""Method identifiers, codec factories and property bytes agree."""
from sa.terms import *
from sa import flow
from sa.flow import ref
from sa.prov import *
from sa.evalt import value, holds

TECHNIQUE = "finite evaluation of extracted expressions, path-outcome analysis (abstract interpretation of MIR)"
RULE = """(1) Every SevenZMethod constant carries the identifier the 7z format gives to the method of that name, and no two carry
the same. (2) by_id, looked up with each identifier, returns the constant that has it; whatever it returns has the identifier
asked for. (3) add_decoder, entered with each method, builds the reader of exactly that codec around the given input (branch
filters: the right converter, decoding, with the codec's start offset), or fails with UnsupportedCompressionMethod naming the
method; the identifier looked up is the coder's own; add_encoder likewise, and what it can encode add_decoder can decode.
(4) The property bytes: for all 256 values, the LZMA2 dictionary the decoder uses is the one the format defines or an error;
for every property step boundary, the byte written is the smallest whose dictionary holds the encoder's; the LZMA byte is
(pb*5+lp)*9+lc on the writing side and, for all 256 values, split the same way or refused on the reading side, and the
dictionary is the little-endian word after it; the encoder gets lc, lp, pb and dictionary from the options the bytes come
from; options no property can express or no decoder accepts are refused."""
NOTE = RULE + " AES properties are decided by C12, the code of the branch filters is not decided."
LEVEL = "other"

OFFICIAL = {
    "COPY": "00", "DELTA": "03", "BCJ_X86": "03030103", "BCJ_PPC": "03030205", "BCJ_IA64": "03030401", "BCJ_ARM": "03030501",
    "BCJ_ARM_THUMB": "03030701", "BCJ_SPARC": "03030805", "LZMA": "030101", "LZMA2": "21", "BCJ2": "0303011B", "PPMD": "030401",
    "DEFLATE": "040108", "DEFLATE64": "040109", "BZIP2": "040202", "ZSTD": "04F71101", "BROTLI": "04F71102", "LZ4": "04F71104",
    "LZS": "04F71105", "LIZARD": "04F71106", "AES256SHA256": "06F10701", "ARM64": "0A", "BCJ_ARM64": "0A", "RISCV": "0B",
    "BCJ_RISCV": "0B", "SWAP2": "020302", "SWAP4": "020304", "BCJ_ARMT": "03030701"}
BCJ = {"BCJ_X86": (5, {0xE8}, "x86"), "BCJ_PPC": (0, {0x48}, "ppc"), "BCJ_ARM": (8, {0xEB}, "arm"),
       "BCJ_ARM_THUMB": (4, {0xF0, 0xF8}, "thumb"), "BCJ_SPARC": (0, {0x40, 0x7F}, "sparc")}
ENCODERS = {"LZMA": "LZMAWriter::new_no_header", "LZMA2": "LZMA2Writer::new", "AES256SHA256": "Aes256Sha256Encoder"}
DMAX = 0xFFFFFFF0


def check(rule, P):
    ms = constants(rule, P)
    if not ms:
        return
    lookup(rule, P, ms)
    dec = decoders(rule, P, ms)
    enc = encoders(rule, P, ms)
    for m in enc - dec:
        rule.bad("undecodable:" + m, "src/decoders.rs", "%s can be written but not read" % m)
    lzma2_dictionary(rule, P, ms)
    properties(rule, P, ms)
    readers(rule, P)
    writers(rule, P)
    rule.floor("constant", 16)
    rule.floor("lookup", 16)
    rule.floor("decoder", 12)
    rule.floor("encoder", 4)
    rule.floor("lzma2 dictionary", 256)
    rule.floor("lzma2 property", 40)
    rule.floor("lzma property", 1)
    rule.floor("lzma byte", 256)
    rule.floor("options", 2)
    rule.floor("window", 2)


def one(rule, P, *need):
    ks = [k for k in P.bodies if all(n in k for n in need) and k.endswith(need[-1]) and "#" not in k]
    if len(ks) != 1:
        rule.bad("missing:" + need[-1], "-", "%s not found" % need[-1])
        return None
    return ks[0]


def base(nm):
    nm = nm.split("::")[-1]
    if nm.startswith("ID_"):
        nm = nm[3:]
    if nm.endswith("_FILTER"):
        nm = nm[:-7]
    return nm


def bytes_of(p, t):
    t = p.val(t)
    if t.op == "a" and t.a[0] in ("array", "arr", "[]"):
        vs = t.a[3]
    elif t.op == "a":
        vs = t.a[3]
    else:
        return None
    if not all(v.op == "c" for v in vs):
        return None
    return tuple(v.a[0] for v in vs)


class Method:
    def __init__(self, key, p):
        self.key, self.p, self.name = key, p, base(key)
        self.val = p.ret
        self.label = strof(p, project(p.ret, (("f", "0"),)))
        self.id = bytes_of(p, project(p.ret, (("f", "1"),)))


def strof(p, t):
    t = p.val(t)
    return t.a[0] if t.op == "s" else None


def loc(P, key):
    return "%s (%s)" % (key, P.bodies[key].file())


def constants(rule, P):
    out, ids = [], {}
    for k in sorted(P.bodies):
        b = P.bodies[k]
        if "SevenZMethod::" not in k or "#" in k or b.argc or k.endswith("::METHODS"):
            continue
        p = flow.Engine(P).run(k)[0]
        rule.fns.add(k)
        v = p.ret
        if v.op == "a" and "SevenZMethod" in str(v.a[1]):
            m = Method(k, p)
            ident = m.id
        else:
            m, ident = None, bytes_of(p, v)
        want = OFFICIAL.get(base(k))
        if ident is None or want is None:
            if m is not None or "ID_" in k:
                rule.bad("id:" + base(k), loc(P, k), "%s: its identifier cannot be determined" % k if ident is None else "%s: no such method in the 7z format" % k)
            continue
        if bytes(ident).hex().upper() != want:
            rule.bad("id:" + base(k), loc(P, k), "%s has identifier %s, the 7z format defines %s" % (k, bytes(ident).hex(), want))
        else:
            rule.ok("constant", "%s = %s" % (k.split("::")[-1], want))
        if m is None:
            continue
        if m.label != m.name and OFFICIAL.get(m.label) != want:
            rule.bad("name:" + m.name, loc(P, k), "%s is called %s" % (k, m.label))
        if ident in ids:
            rule.bad("same:" + m.name, loc(P, k), "%s and %s have the same identifier" % (m.name, ids[ident]))
        ids[ident] = m.name
        out.append(m)
    return out


# ---- (2) lookup ------------------------------------------------------------

def conc(p, t, iv, j):
    """t with the loop index fixed: loads through constant tables are carried out"""
    def go(t):
        if t is iv:
            return C(j)
        if not isinstance(t, T):
            return t
        o = t.op
        if o == "e":
            b = go(t.a[0])
            i = go(t.a[1])
            return elem(b, i) if i.op == "c" else t
        if o == "d":
            r = go(t.a[0])
            return p.pointee(r) if r.op == "r" else mk("d", r)
        if o == "f":
            return project(go(t.a[0]), (("f", t.a[1]),))
        if o == "rc":
            return go(t.a[0])
        if o in ("ge0", "eq0", "ne0"):
            return {"ge0": ge0, "eq0": eq0, "ne0": ne0}[o](go(t.a[0]))
        if o == "lin":
            r = C(t.a[0])
            for k, c in t.a[1]:
                r = add(r, scale(go(k), c))
            return r
        if o == "not":
            return mk("not", go(t.a[0]))
        if o == "eq":
            return mk("eq", go(t.a[0]), go(t.a[1]))
        return t
    return go(t)


def arr(t):
    while t.op in ("rc",):
        t = t.a[0]
    return tuple(x.a[0] for x in t.a[3]) if t.op == "a" and all(isinstance(x, T) and x.op == "c" for x in t.a[3]) else None


def fact_holds(p, f, iv, j):
    g = conc(p, f, iv, j)
    inv = g.op == "not"
    h = g.a[0] if inv else g
    if h.op == "eq":
        x, y = arr(p.val(h.a[0])), arr(p.val(h.a[1]))
        r = None if x is None or y is None else x == y
    elif h.op in ("eq0", "ne0", "ge0", "c"):
        r = holds(h, {})
    else:
        r = None
    return r if r is None else r != inv


def lookup(rule, P, ms):
    key = one(rule, P, "SevenZMethod::", "by_id")
    if not key:
        return
    where = loc(P, key)
    for m in ms:
        cell = mk("L", "id", m.name)
        val = agg("array", None, tuple(str(i) for i in range(len(m.id))), tuple(C(b) for b in m.id))

        def setup(st):
            st.store[cell] = m.p.val(project(m.val, (("f", "1"),)))
        e = flow.Engine(P)
        ps = [p for p in e.run(key, args=[ref(cell)], setup=setup)]
        rule.ran(e, ps, key)
        got = find(ps)
        if got == "?":
            rule.bad("lookup:" + m.name, where, "by_id: what it finds for the identifier of %s cannot be determined" % m.name)
        elif got is None:
            rule.bad("lookup:" + m.name, where, "by_id finds no method for the identifier of %s" % m.name)
        elif got != m.id:
            rule.bad("lookup:" + m.name, where, "by_id returns the method with identifier %s for that of %s" % (bytes(got).hex(), m.name))
        else:
            rule.ok("lookup", m.name)
    # whatever is returned has the identifier asked for
    e = flow.Engine(P)
    ps = e.run(key)
    rule.ran(e, ps, key)
    arg = mk("d", mk("p", P.bodies[key].locals[1][1] or "arg1"))
    n = 0
    for p in ps:
        if p.kind == "panic":
            rule.bad("lookup:panic", where, "by_id can panic: %s" % pp(p.ret)[:80])
        if p.kind != "return" or p.variant_of(p.ret) == "None":
            continue
        v = vfield(p.ret, "Some")
        m = p.val(field(v, "0"))
        ident = p.val(project(m, (("f", "1"),)))
        n += 1
        iv, cnt = table(ps)
        if not same_bytes(p, arg, ident, iv, cnt):
            rule.bad("lookup:other", where, "by_id returns %s without comparing its identifier with the one asked for" % pp(m)[:120])
    if not n:
        rule.bad("lookup:none", where, "by_id never finds a method")


def same_bytes(p, a, b, iv=None, n=0):
    for f in p.facts:
        if f.op == "eq" and ({f.a[0], f.a[1]} == {a, b} or {p.val(f.a[0]), p.val(f.a[1])} == {a, b}):
            return True
        if f.op == "eq" and n and (a in f.a or a.a[0] in f.a):
            other = f.a[1] if f.a[0] in (a, a.a[0]) else f.a[0]
            if all(arr(p.val(conc(p, other, iv, j))) == ident_of(p, iv, j) != "?" for j in range(n)):
                return True
    bs = arr(b)
    return bs is not None and p.entails(eqi(length(a), C(len(bs)))) and all(p.entails(eqi(elem(a, C(i)), C(x))) for i, x in enumerate(bs))


def table(ps):
    """loop index and length of the constant table that is searched"""
    iv, count = None, 0
    for p in ps:
        for e in p.ev:
            if e.kind == "next":
                iv = e.vals[1]
                n = flow.it_count(p, e.vals[3]) if e.vals[3].op == "it" else None
                if n is not None and n.op == "len":
                    q = p.val(n.a[0])
                    while q.op in ("rc", "d") and q.a[0].op in ("a", "r", "rc", "d"):
                        q = p.val(q.a[0])
                    n = C(len(q.a[3])) if q.op == "a" else n
                if n is None or n.op != "c":
                    return None, -1
                count = n.a[0]
    return iv, count


def find(ps):
    """identifier of the method the paths return for a concrete input; None; '?'"""
    iv, count = table(ps)
    if count < 0:
        return "?"
    if iv is None:
        outs = [p for p in ps if p.kind == "return" and all(fact_holds(p, f, None, 0) is not False for f in p.facts)]
        if len(outs) != 1:
            return "?"
        return ident_of(outs[0], None, 0)
    for j in range(count):
        hit = None
        for p in ps:
            if not any(e.kind == "next" and e.name == "item" for e in p.ev):
                continue
            r = [fact_holds(p, f, iv, j) for f in p.facts]
            if None in r:
                return "?"
            if all(r):
                if hit is not None:
                    return "?"
                hit = p
        if hit is None:
            return "?"
        if hit.kind == "return":
            return ident_of(hit, iv, j)
    return None


def ident_of(p, iv, j):
    if p.variant_of(p.ret) == "None" or (p.ret.op == "a" and p.ret.a[2] is None and "None" in pp(p.ret)[:6]):
        return None
    m = conc(p, p.val(field(vfield(p.ret, "Some"), "0")), iv, j)
    i = p.val(project(p.val(m), (("f", "1"),)))
    r = arr(i)
    return r if r is not None else "?"


# ---- (3) factories ---------------------------------------------------------

def with_method(st, m):
    for r, v in m.p.store.items():
        st.store.setdefault(r, v)


def decoder_paths(rule, P, key, byid, m):
    asked = []

    def found(e, st, c, args, tys, dest, tgt):
        asked.append((args[0], st.val(args[0]), st.frames[-1].body))
        if m is None:
            return [(st, NONE)]
        with_method(st, m)
        return [(st, some(m.val))]
    e = flow.Engine(P, models={byid: found})
    ps = e.run(key)
    rule.ran(e, ps, key)
    return ps, asked


def named_error(p, m):
    """Err(UnsupportedCompressionMethod(name of the method))"""
    if p.kind != "return" or p.variant_of(p.ret) != "Err":
        return False
    x = field(vfield(p.ret, "Err"), "0")
    if p.variant_of(x) != "UnsupportedCompressionMethod":
        return False
    if m is None:
        return True
    for s in subterms(x):
        if s.op == "s" and s.a[0] == m.label or s.op == "r" and strof(p, s) == m.label:
            return True
    return False


def oks(ps):
    return [(p, field(vfield(p.ret, "Ok"), "0")) for p in ps if p.kind == "return" and p.variant_of(p.ret) == "Ok"]


def inner(v):
    """the reader inside Decoder::X(..)"""
    if v.op == "a" and len(v.a[3]) == 1:
        return v.a[3][0]
    return v


def decoders(rule, P, ms):
    key = one(rule, P, "decoders::", "add_decoder")
    byid = one(rule, P, "SevenZMethod::", "by_id")
    if not key or not byid:
        return set()
    where = loc(P, key)
    able = set()
    inp = mk("p", P.bodies[key].locals[1][1])
    coder = mk("d", mk("p", P.bodies[key].locals[3][1]))
    props = field(coder, "properties")
    ident = field(coder, "decompression_method_id")
    for m in ms + [None]:
        nm = m.name if m else "an unknown identifier"
        ps, asked = decoder_paths(rule, P, key, byid, m)
        if not asked:
            rule.bad("decoder:lookup", where, "add_decoder does not look up the method by the coder's identifier")
            break
        for a, v, b in asked:
            if not own_id(a, v, coder):
                rule.bad("decoder:ident", where, "add_decoder looks up %s instead of the coder's identifier" % pp(v)[:120])
        got = oks(ps)
        if not got:
            if not any(named_error(p, m) for p in ps):
                rule.bad("decoder:" + nm, where, "add_decoder refuses %s with another error than UnsupportedCompressionMethod naming it" % nm)
            elif any(p.kind not in ("return", "loop") or p.kind == "return" and not named_error(p, m) for p in ps):
                rule.bad("decoder:" + nm, where, "add_decoder does not always refuse %s with UnsupportedCompressionMethod naming it" % nm)
            else:
                rule.ok("decoder", "%s is refused by name" % nm)
            continue
        if m is None:
            rule.bad("decoder:unknown", where, "add_decoder makes a decoder for an unknown identifier")
            continue
        able.add(nm)
        why = None
        for p, v in got:
            why = why or wrong_codec(P, p, m, inner(v), v, inp, props, ps)
        if why:
            rule.bad("decoder:" + nm, where, "add_decoder for %s: %s" % (nm, why))
        else:
            rule.ok("decoder", nm)
    return able


def own_id(a, v, coder):
    for t in (a, v):
        for s in subterms(t):
            if s.op == "f" and s.a[1] == "decompression_method_id" and s.a[0] is coder:
                return True
            if s.op == "r" and s.a[2] and ("f", "decompression_method_id") in s.a[2] and mk("d", s.a[1].a[0]) is coder:
                return True
    return False


def find_call(p, t, *names):
    """the call a term is the (successful) result of"""
    for s in subterms(t):
        if s.op == "call" and any(s.a[0].endswith(n) for n in names):
            for e in p.ev:
                if e.kind == "call" and e.ret is s:
                    return e
    return None


def unwrap(t):
    while t.op in ("v", "f"):
        t = t.a[0]
    return t


def wrong_codec(P, p, m, r, v, inp, props, ps):
    nm = m.name
    if nm == "COPY":
        return None if r is inp else "the reader is %s, not the input" % pp(r)[:80]
    if not any(s is inp for s in subterms(r)):
        return "the reader does not read the given input"
    if nm in ("LZMA", "LZMA2", "ZSTD", "BZIP2"):
        want = {"LZMA": "LZMAReader::new_with_props", "LZMA2": "LZMA2Reader::new", "ZSTD": "Decoder::new", "BZIP2": "BzDecoder::new"}[nm]
        c = unwrap(r)
        e = next((e for e in p.ev if e.kind == "call" and e.ret is c), None)
        if e is None or e.name != want and not (nm == "LZMA" and e.name in ("LZMAReader::new", "LZMAReader::new_with_props")):
            return "the reader is %s, not that of %s" % (pp(r)[:80], want)
        if nm == "ZSTD" and "zstd" not in str(e.callee.get("fn", "")).lower():
            return "the reader is %s" % e.callee.get("fn")
        if e.vals[0] is not inp and e.args[0] is not inp:
            return "the reader reads %s" % pp(e.vals[0])[:60]
        if nm == "LZMA":
            if len(e.vals) != 5:
                return None
            if e.vals[2] is not elem(props, ZERO):
                return "the LZMA property byte is %s" % pp(e.vals[2])[:60]
            w = le32_of(p, e.vals[3], props)
            if not w:
                return "the dictionary size is %s, not the little-endian word after the property byte" % pp(e.vals[3])[:100]
            if variant(e.vals[4]) != "None":
                return "a preset dictionary is used"
            if uncast(e.vals[1]).op != "p":
                return "the uncompressed size is %s" % pp(e.vals[1])[:60]
        if nm == "LZMA2" and variant(e.vals[2]) != "None":
            return "a preset dictionary is used"
        return None
    if nm == "DELTA":
        if "DeltaReader" not in str(r.a[1]):
            return "the reader is %s" % pp(r)[:80]
        d = [s for s in subterms(r) if s.op == "a" and "distance" in (s.a[2] or ())]
        t = field(d[0], "distance") if d else None
        if t is None:
            return "no distance"
        if p.entails(eqi(length(props), ZERO)):
            return None if isc(t, 1) else "without properties the distance is %s" % pp(t)[:40]
        b = elem(props, ZERO)
        for x in range(256):
            y = peval(t, {b: C(x)}, x, b)
            if y is None or y % 256 != (x + 1) % 256:
                return "for property byte %d the distance is %s" % (x, pp(t)[:60])
        return None
    if nm in BCJ:
        pos, sig, _ = BCJ[nm]
        f = [s for s in subterms(r) if s.op == "a" and "BCJFilter" in str(s.a[1])]
        if not f:
            return "the reader is %s" % pp(r)[:80]
        f = f[0]
        fn = field(f, "filter")
        code = fn.a[0] if fn.op == "fn" else None
        got = kinds(P, fn)
        if got != nm:
            return "its converter is %s, that of %s" % (code, got)
        if not isc(field(f, "is_encoder"), 0) and field(f, "is_encoder") is not FALSE:
            return "the converter encodes"
        if not isc(field(f, "pos"), pos):
            return "the converter starts at offset %s, not %d" % (pp(field(f, "pos")), pos)
        if not any(s.op == "f" or s is inp for s in [field(r, "inner")]) or field(r, "inner") is not inp:
            return "the filter does not read the input"
        return None
    if nm == "AES256SHA256":
        if "Aes256Sha256Decoder" not in str(r.a[1] if r.op == "a" else pp(r)):
            return "the reader is %s" % pp(r)[:80]
        return None
    return "no decoder of this method is known to this check"


def peval(t, env, x, b):
    t = rewrite(t, lambda s: C((s.a[1].a[0] if s.a[1].op == "c" else 0)) if False else None)
    def f(s):
        if s.op in ("pure", "call") and s.a[0] in ("num::wrapping_add", "num::saturating_add"):
            args = s.a[1:] if s.op == "pure" else s.a[2]
            u, w = value(rewrite(args[0], lambda q: env.get(q)), {}), value(rewrite(args[1], lambda q: env.get(q)), {})
            if u is None or w is None:
                return None
            return C((u + w) % 256 if s.a[0].endswith("wrapping_add") else min(255, u + w))
        return env.get(s)
    return value(rewrite(t, f), {})


def kinds(P, fn):
    """which instruction set a converter looks for: the opcode constants it compares with"""
    if fn.op != "fn":
        return None
    it = P.by_id.get(fn.a[1])
    key = it["key"] if it else None
    if key is None or key not in P.bodies:
        return None
    cs = set()
    todo, seen = [key], set()
    while todo:
        k = todo.pop()
        if k in seen or k not in P.bodies:
            continue
        seen.add(k)
        cs |= constants_in(P, P.bodies[k])
        for _, c in P.call_sites(P.bodies[k]):
            for i in (c.get("rid"), c.get("id")):
                if i in P.by_id and P.by_id[i]["key"] in P.bodies:
                    todo.append(P.by_id[i]["key"])
    hits = []
    if 0xE8 in cs and (0xE9 in cs or 0xFE in cs):
        hits.append("BCJ_X86")
    if 0xEB in cs:
        hits.append("BCJ_ARM")
    if 0xF8 in cs and 0xF0 in cs:
        hits.append("BCJ_ARM_THUMB")
    if 0x48 in cs and 0xFC in cs:
        hits.append("BCJ_PPC")
    if 0x40 in cs and 0x7F in cs and 0xC0 in cs:
        hits.append("BCJ_SPARC")
    if len(hits) == 1:
        return hits[0]
    last = key.split("::")[-1].lower()
    for nm, w in (("BCJ_X86", "x86"), ("BCJ_ARM_THUMB", "thumb"), ("BCJ_ARM", "arm"), ("BCJ_PPC", "ppc"), ("BCJ_SPARC", "sparc")):
        if w in last:
            return nm
    return "/".join(hits) or None


def constants_in(P, body):
    out = set()

    def go(x):
        if isinstance(x, dict):
            if isinstance(x.get("v"), int) and not isinstance(x.get("v"), bool):
                out.add(x["v"])
            c = P.by_id.get(x["cid"]) if "cid" in x else None
            if c is not None and c["key"] in P.bodies and "prom" not in x:
                go(P.bodies[c["key"]].blocks)
            for y in x.values():
                go(y)
        elif isinstance(x, (list, tuple)):
            if len(x) >= 3 and x[0] == "switch":
                out.update(y[0] for y in x[2] if isinstance(y[0], int))
            for y in x:
                go(y)
    go(body.blocks)
    return out


def le32_of(p, t, props):
    """is t the little-endian 32-bit word at 1..5 of props"""
    t = unwrap(uncast(t))
    bs = None
    if t.op in ("call", "pure"):
        src = t.a[1:] if t.op == "pure" else t.a[2]
        if "read_u32" in t.a[0]:
            e = next((e for e in p.ev if e.kind == "call" and e.ret is t), None)
            if e is None or "LittleEndian" not in str(e.callee):
                return False
            v = p.val(e.vals[0])
            return starts_at(v, props, 1)
        if t.a[0].endswith("from_le_bytes"):
            v = p.val(src[0])
            if v.op == "a" and len(v.a[3]) == 4:
                bs = [uncast(x) for x in v.a[3]]
            else:
                return any(starts_at(s, props, 1) and isc(s.a[2], 5) for s in subterms(t) if s.op == "sl")
    if bs is not None:
        return all(b is elem(props, C(i + 1)) for i, b in enumerate(bs))
    from sa.bits import bitvec
    want = []
    for i in range(4):
        b = elem(props, C(i + 1))
        want += [(b, k) for k in range(8)]
    return list(bitvec(t)[:32]) == want


def starts_at(v, props, lo):
    if v.op == "sl":
        return v.a[0] is props and isc(v.a[1], lo) and (v.a[2].op != "c" or v.a[2].a[0] >= lo + 4)
    return False


# ---- encoders --------------------------------------------------------------

def encoder_paths(rule, P, key, m, extra=()):
    body = P.bodies[key]
    cfg = next((body.locals[i][1] for i in range(1, body.argc + 1) if "SevenZMethodConfiguration" in body.locals[i][0]), None)
    par = next((body.locals[i][1] for i in range(1, body.argc + 1) if body.locals[i][0].endswith("SevenZMethod")), None)
    args = None
    if par:
        args = [m.val if body.locals[i][1] == par else None for i in range(1, body.argc + 1)]

    def setup(st):
        with_method(st, m)
        if cfg:
            st.put(mk("D", mk("p", cfg)), (("f", "method"),), m.val)
    e = flow.Engine(P, opaque=set(extra))
    ps = e.run(key, args=args, setup=setup)
    rule.ran(e, ps, key)
    return ps


def encoders(rule, P, ms):
    key = one(rule, P, "encoders::", "add_encoder")
    if not key:
        return set()
    where = loc(P, key)
    able = set()
    inp = mk("p", P.bodies[key].locals[1][1])
    for m in ms:
        ps = encoder_paths(rule, P, key, m)
        got = oks(ps)
        if not got:
            if all(p.kind == "return" and named_error(p, m) for p in ps):
                rule.ok("encoder", "%s is refused by name" % m.name)
            else:
                rule.bad("encoder:" + m.name, where, "add_encoder does not refuse %s with UnsupportedCompressionMethod naming it" % m.name)
            continue
        able.add(m.name)
        want = ENCODERS.get(m.name)
        if want is None:
            rule.bad("encoder:" + m.name, where, "add_encoder encodes %s, but no encoder of it is known to this check" % m.name)
            continue
        bad = None
        for p, v in got:
            w = inner(v)
            if "::" in want:
                c = unwrap(w)
                e = next((e for e in p.ev if e.kind == "call" and e.ret is c), None)
                if e is None or e.name.split("::")[0] != want.split("::")[0]:
                    bad = "its encoder is %s" % pp(w)[:80]
                elif e.args[0] is not inp and e.vals[0] is not inp:
                    bad = "its encoder writes to %s" % pp(e.vals[0])[:60]
                elif m.name == "LZMA" and (e.name != want or e.vals[2] is not FALSE):
                    bad = "its encoder is made by %s with %s" % (e.name, [pp(x)[:30] for x in e.vals[2:]])
                else:
                    bad = bad or limits(p, m, e.vals[1])
            elif not (w.op == "a" and want in str(w.a[1])):
                bad = "its encoder is %s" % pp(w)[:80]
        if bad:
            rule.bad("encoder:" + m.name, where, "add_encoder for %s: %s" % (m.name, bad))
        else:
            rule.ok("encoder", m.name)
    return able


def limits(p, m, o):
    """options nobody can express or decode have been refused"""
    f = lambda n: field(o, n)
    cap = [("lc", 8), ("lp", 4), ("pb", 4), ("nice_len", 273)]
    for n, c in cap:
        if not p.entails(ge0(sub(C(c), f(n)))):
            return "options with %s above %d are accepted" % (n, c)
    if m.name == "LZMA2" and not p.entails(ge0(sub(C(4), add(f("lc"), f("lp"))))):
        return "options with lc+lp above 4 are accepted"
    if not p.entails(ge0(sub(C(DMAX), f("dict_size")))):
        return "dictionaries above the maximum are accepted"
    if p.variant_of(f("preset_dict")) != "None" and variant(f("preset_dict")) != "None":
        return "a preset dictionary is accepted, no property records it"
    return None


# ---- (4) property bytes ----------------------------------------------------

def dic(p):
    return 0xFFFFFFFF if p == 40 else (2 | (p & 1)) << (p // 2 + 11)


def feasible(p, env):
    """False: some condition of the path is false; None: some cannot be evaluated"""
    r = [holds(f, env) for f in p.facts]
    return False if False in r else True


def lzma2_dictionary(rule, P, ms):
    key = one(rule, P, "decoders::", "add_decoder")
    byid = one(rule, P, "SevenZMethod::", "by_id")
    m = next((m for m in ms if m.name == "LZMA2"), None)
    if not (key and byid and m):
        return
    where = loc(P, key)
    ps, _ = decoder_paths(rule, P, key, byid, m)
    coder = mk("d", mk("p", P.bodies[key].locals[3][1]))
    props = field(coder, "properties")
    if any(p.kind == "loop" for p in ps):
        rule.bad("lzma2:loop", where, "the dictionary size is computed by a loop this check cannot evaluate")
        return
    for b in range(256):
        env = {elem(props, ZERO): b, length(props): 1}
        got = []
        for p in ps:
            if feasible(p, env) is False:
                continue
            if p.kind == "return" and p.variant_of(p.ret) == "Ok":
                e = next((e for e in p.ev if e.kind == "call" and e.name == "LZMA2Reader::new"), None)
                got.append(value(e.vals[1], env) if e else "?")
            elif p.kind == "return" and p.variant_of(p.ret) == "Err":
                if not any(s.op == "a" and "MaxMemLimited" in str(s.a[2:]) + pp(s)[:40] for s in subterms(p.ret)):
                    got.append("error")
            else:
                got.append("panic")
        want = dic(b) if b <= 40 else "error"
        if got != [want]:
            rule.bad("lzma2:dictionary", where, "LZMA2 property %d gives dictionary %s, the format defines %s" % (b, got, want))
            return
        rule.ok("lzma2 dictionary", "%d -> %s" % (b, want))


def run_small(ps, env, get):
    """result of the paths of a function with at most one loop, for given values"""
    loops = {}
    for p in ps:
        for e in p.ev:
            if e.kind == "next":
                loops["iv"] = (e.vals[1], e.vals[3], e)
            if e.kind == "loop":
                for root, path, lv, old in e.havoc:
                    loops.setdefault("lv", {})[(root, path)] = (lv, old)
    env = dict(env)
    if not loops:
        return pick(ps, env, get)
    if "iv" in loops:
        iv, it, _ = loops["iv"]
        lo, n = ZERO, None
        if it.op == "it" and it.a[0] == "range":
            lo, hi = it.a[1], it.a[2]
            rng = (value(lo, env), value(hi, env))
        else:
            n = flow.it_count(ps[0], it)
            rng = (0, value(n, env)) if n is not None else (None, None)
        if None in rng:
            return "?"
        for j in range(rng[0], rng[1]):
            env[iv] = j
            item = [p for p in ps if any(e.kind == "next" and e.name == "item" for e in p.ev)]
            r = pick(item, env, get)
            if r != "loop":
                return r
        env.pop(iv, None)
        return pick([p for p in ps if any(e.kind == "next" and e.name == "done" for e in p.ev)], env, get)
    st = loops["lv"]
    for k, (lv, old) in st.items():
        v = value(old, env)
        if v is not None:
            env[lv] = v
    for _ in range(5000):
        hit = [p for p in ps if feasible(p, env) is not False]
        if len(hit) != 1:
            return "?"
        p = hit[0]
        if p.kind != "loop":
            return get(p, env)
        env.update({lv: v for (root, path), (lv, old) in st.items() for v in [value(p.load(root, path), env)] if v is not None})
    return "?"


def pick(ps, env, get):
    rs = [("loop" if p.kind == "loop" else get(p, env)) for p in ps if feasible(p, env) is not False]
    rs = list(dict.fromkeys(rs))
    return rs[0] if len(rs) == 1 else "?"


def properties(rule, P, ms):
    key = one(rule, P, "encoders::", "get_options_as_properties")
    akey = one(rule, P, "encoders::", "add_encoder")
    if not key or not akey:
        return
    where = loc(P, key)
    outp = mk("D", mk("p", P.bodies[key].locals[3][1]))
    optp = mk("p", P.bodies[key].locals[2][1])
    for nm in ("LZMA2", "LZMA"):
        m = next((m for m in ms if m.name == nm), None)
        if m is None:
            continue
        ps = encoder_paths(rule, P, key, m)
        aps = encoder_paths(rule, P, akey, m)
        for kind in ("None", "Aes", "LZMA2", "Num"):
            mine = [p for p in ps if optkind(p, mk("d", optp), optp) == kind]
            theirs = [p for p, _ in oks(aps) if optkind(p, field(mk("d", mk("p", "method_config")), "options"), None) == kind]
            given = {}
            for p in theirs:
                e = next((e for e in p.ev if e.kind == "call" and e.name.startswith(ENCODERS[nm].split("::")[0] + "::")), None)
                if e is not None:
                    given[tuple(norm(field(e.vals[1], n)) for n in ("lc", "lp", "pb", "dict_size"))] = p
            if not mine or len(given) != 1:
                if nm == "LZMA2" or kind in ("LZMA2", "Num", "None"):
                    rule.bad("property:%s:%s" % (nm, kind), where, "the property bytes of %s for %s options cannot be related to the encoder's" % (nm, kind))
                continue
            lc, lp, pb, dct = list(given)[0]
            if nm == "LZMA2":
                why = lzma2_property(rule, mine, outp, dct, kind)
            else:
                why = lzma_property(P, mine, outp, (lc, lp, pb, dct))
            if why:
                rule.bad("property:%s" % nm, where, "%s, %s options: %s" % (nm, kind, why))
            elif nm == "LZMA":
                rule.ok("lzma property", "%s options" % kind)


def norm(t):
    """the options a caller handed in, wherever the reference to them is kept"""
    def f(x):
        if x.op == "d" and x.a[0].op == "p":
            return mk("p", "OPTIONS")
        if x.op == "f" and x.a[1] == "options":
            return mk("p", "OPTIONS")
        if x.op == "p" and x.a[0] == "options":
            return mk("p", "OPTIONS")
        return None
    r = rewrite(t, f)
    return rewrite(r, lambda x: x.a[0] if x.op == "d" else None)


def optkind(p, *roots):
    for r in roots:
        if r is None:
            continue
        v = p.variant_of(r)
        if v == "None":
            return "None"
        if v == "Some":
            x = field(vfield(r, "Some"), "0")
            k = p.variant_of(x) or p.variant_of(p.val(x))
            if k:
                return k
            return p.variant_of(mk("d", x)) or p.variant_of(p.pointee(x))
    return None


def lzma2_property(rule, ps, outp, dct, kind):
    def get(p, env):
        if p.kind != "return":
            return "panic"
        v = p.load(outp, (("e", ZERO),)) if False else elem(p.load(outp), ZERO)
        if not one_byte(p, outp):
            return "not one byte"
        return value(renv(v), {renv(k): x for k, x in env.items()})

    def renv(t):
        return norm(t)
    if dct.op == "c":
        vals = [dct.a[0]]
    else:
        vals = sorted({x for b in range(41) for x in (dic(b) - 1, dic(b), dic(b) + 1) if 0 <= x <= DMAX} | {0, 1, 4095, 4096, DMAX})
    ps = [normpath(p) for p in ps]
    for v in vals:
        env = {} if dct.op == "c" else {dct: v}
        got = run_small(ps, env, get)
        want = next((b for b in range(40) if dic(b) >= v), 40)
        if got != want:
            return "dictionary %d is recorded as property %s instead of %d" % (v, got, want)
        rule.ok("lzma2 property", "%s options, dictionary %d -> %d" % (kind, v, want))
    return None


class NP:
    """a path with its conditions in terms of OPTIONS"""
    def __init__(self, p):
        self.p, self.facts, self.ev, self.kind, self.ret = p, [norm(f) for f in p.facts], p.ev, p.kind, p.ret
        self.load, self.val = p.load, p.val


def normpath(p):
    return NP(p)


def one_byte(p, outp):
    r = p.ret
    return r.op == "r" and r.a[1] is outp and len(r.a[2]) == 1 and r.a[2][0][0] == "sl" and isc(r.a[2][0][1], 0) and isc(r.a[2][0][2], 1)


def lzma_property(P, ps, outp, given):
    lc, lp, pb, dct = given
    n = 0
    for p in ps:
        if p.kind != "return":
            continue
        n += 1
        r = p.ret
        if not (r.op == "r" and r.a[1] is outp and r.a[2] and r.a[2][0][0] == "sl" and isc(r.a[2][0][1], 0) and isc(r.a[2][0][2], 5)):
            return "the properties are %s, not five bytes" % pp(r)[:60]
        out = p.load(outp)
        b = elem(out, ZERO)
        w = word_at(out, 1)
        if w is None or norm(w) is not dct:
            return "the dictionary is recorded as %s, the encoder gets %s" % (pp(w)[:60] if w is not None else pp(subslice(out, C(1), C(5)))[:80], pp(dct)[:60])
        why = props_byte(P, p, b, lc, lp, pb)
        if why:
            return why
    return None if n else "nothing is returned"


def word_at(out, lo):
    s = subslice(out, C(lo), C(lo + 4))
    for t in subterms(s):
        if t.op in ("le32",):
            return t.a[0]
        if t.op == "usl" and isc(t.a[1], lo) and isc(t.a[2], lo + 4):
            return whole(t.a[3])
    return whole(s)


def whole(t):
    while t.op == "sl" and isc(t.a[1], 0):
        t = t.a[0]
    if t.op in ("bytes", "le", "le32", "be"):
        pass
    s = pp(t)
    if s.startswith("le32("):
        return [x for x in t.a if isinstance(x, T)][0]
    return None


def props_byte(P, p, b, lc, lp, pb):
    b = rewrite(b, lambda x: None)
    c = uncast(b)
    if c.op in ("call", "pure") and c.a[0].endswith("get_props"):
        key = [k for k in P.bodies if k.endswith("get_props")]
        if len(key) != 1:
            return "get_props not found"
        e = next((e for e in p.ev if e.kind == "call" and e.ret is c), None)
        q = [q for q in flow.Engine(P).run(key[0]) if q.kind == "return"]
        if len(q) != 1 or e is None:
            return "get_props has more than one outcome"
        self_ = mk("d", mk("p", P.bodies[key[0]].locals[1][1]))
        o = p.val(e.vals[0])
        for n, want in (("lc", lc), ("lp", lp), ("pb", pb)):
            if norm(field(o, n)) is not want:
                return "the property byte is made from another %s than the encoder gets" % n
        t = q[0].ret
        vs = [field(self_, n) for n in ("lc", "lp", "pb")]
    else:
        t = norm(b)
        vs = [lc, lp, pb]
    for a in range(9):
        for d in range(5):
            for f in range(5):
                env = {v: x for v, x in zip(vs, (a, d, f)) if v.op != "c"}
                if any(v.op == "c" and v.a[0] != x for v, x in zip(vs, (a, d, f))):
                    continue
                g = value(t, env)
                if g != (f * 5 + d) * 9 + a:
                    return "for lc=%d lp=%d pb=%d the property byte is %s" % (a, d, f, g)
    return None


# ---- readers and writers of lzma_rust --------------------------------------

def readers(rule, P):
    key = one(rule, P, "LZMAReader::<R>::", "new_with_props")
    if key:
        where = loc(P, key)
        e = flow.Engine(P, opaque={"LZMADecoder::new", "LZDecoder::new", "RangeDecoder::new_stream"})
        ps = e.run(key)
        rule.ran(e, ps, key)
        pr = next((mk("p", n) for t, n in P.bodies[key].locals[1:6] if t == "u8"), None)
        dz = next((mk("p", n) for t, n in P.bodies[key].locals[1:6] if t == "u32"), None)
        for b in range(256):
            env = {pr: b}
            hit = [p for p in ps if feasible(p, env) is not False]
            want = (b % 9, b // 9 % 5, b // 45) if b < 225 else None
            for p in hit:
                cs = [e for e in p.ev if e.kind == "call" and e.name == "LZMADecoder::new"]
                if p.kind == "panic":
                    rule.bad("lzma:byte", where, "property byte %d can panic" % b)
                for c in cs:
                    got = tuple(value(v, env) for v in c.vals[:3])
                    if got != want:
                        rule.bad("lzma:byte", where, "LZMA property byte %d is decoded as (lc, lp, pb) = %s, it means %s" % (b, got, want or "an error"))
                        return
            if want and not any(e.name == "LZMADecoder::new" for p in hit for e in p.ev):
                rule.bad("lzma:byte", where, "LZMA property byte %d is refused" % b)
                return
            rule.ok("lzma byte", "%d -> %s" % (b, want or "refused"))
        window(rule, where, ps, dz, next((mk("p", n) for t, n in P.bodies[key].locals[1:6] if t == "u64"), None))
    key = one(rule, P, "LZMA2Reader::<R>::", "new")
    if key:
        e = flow.Engine(P, opaque={"LZDecoder::new"})
        ps = e.run(key)
        rule.ran(e, ps, key)
        window(rule, loc(P, key), ps, next((mk("p", n) for t, n in P.bodies[key].locals[1:4] if t == "u32"), None), None)


def window(rule, where, ps, dz, usz):
    n = 0
    for p in ps:
        for e in p.ev:
            if e.kind != "call" or e.name != "LZDecoder::new":
                continue
            n += 1
            w = e.vals[0]
            if value(w, {}) is not None:
                w = C(value(w, {}))
            fits = p.entails(ge0(sub(w, dz))) or p.entails(ge0(sub(w, C(DMAX))))
            if not fits and usz is not None:
                fits = p.entails(ge0(sub(w, usz)))
            if not fits:
                rule.bad("window", where, "the decoder's window (%s) can be smaller than the dictionary and the data" % pp(w)[:100])
                return
    if n:
        rule.ok("window", where)
    else:
        rule.bad("window:none", where, "no window is created")


def writers(rule, P):
    for cls, nm in (("lzma_writer::LZMAWriter", "new"), ("lzma2_writer::LZMA2Writer", "new")):
        keys = [k for k in P.bodies if cls in k and k.split("::")[-1] in ("new", "new_no_header") and "#" not in k]
        n = 0
        for key in keys:
            e = flow.Engine(P, opaque={"LZMAEncoder::new"}, inline_filter=lambda k: "LZMAEncoder" not in k and "RangeEncoder" not in k)
            ps = e.run(key)
            rule.ran(e, ps, key)
            for p in ps:
                for c in p.ev:
                    if c.kind != "call" or c.name != "LZMAEncoder::new":
                        continue
                    n += 1
                    body = P.bodies[key]
                    o = next((mk("d", mk("p", body.locals[i][1])) for i in range(1, body.argc + 1) if "LZMA2Options" in body.locals[i][0]), None)
                    names = callee_params(P, c)
                    for w in ("lc", "lp", "pb", "dict_size"):
                        i = names.index(w) if w in names else {"lc": 1, "lp": 2, "pb": 3, "dict_size": 6}[w]
                        if o is None or c.vals[i] is not field(o, w):
                            rule.bad("options:" + w, loc(P, key), "the encoder's %s is %s, not that of the options" % (w, pp(c.vals[i])[:60]))
                            break
        if n:
            rule.ok("options", cls)
        else:
            rule.bad("options:" + cls, "-", "%s makes no LZMAEncoder" % cls)


def callee_params(P, c):
    it = P.by_id.get(c.callee.get("rid") or c.callee.get("id"))
    if it is None or it["key"] not in P.bodies:
        return []
    b = P.bodies[it["key"]]
    return [b.locals[i][1] for i in range(1, b.argc + 1)]
