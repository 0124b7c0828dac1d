"""AES: only ciphertext is output, one key derivation, password demanded."""
import re
from sa.terms import *
from sa import flow
from sa.prov import *
from sa.bits import canon, normal
from sa.tile import *

TECHNIQUE = "byte-provenance (tiling) and taint dataflow, bit-level known-bits domain (abstract interpretation of MIR)"
RULE = """(1) Every non-empty byte string the AES encoder passes on is the output of the cipher for a 16-byte block, each cipher
output is passed on once and in order, and the blocks it enciphers tile, in order and without gap, what was pending plus
what was given; what is left over becomes the pending buffer; when the end is signalled the rest is enciphered padded with
zeros. (2) The decoder's pending plus given bytes are tiled by the blocks it deciphers in the same way, it hands on only
deciphered blocks, each once, reports exactly their number, and fails when the stream ends inside a block. (3) The property
bytes the options produce, put through the decoder's derivation with bit-exact arithmetic, give the events (salt, password,
counter, rounds, IV) the encoder's own derivation has, for every options value; decoding takes salt and IV from where the
7z format puts them. (4) The bytes stored in the archive for an AES coder are those property bytes. (5) IV and salt of new
options come, each element of each, from separate uses of a random generator. (6) A cipher object is only made on paths
where the password is known to be non-empty, an empty one gives PasswordRequired, and every function that has a password
passes it on unchanged to the functions that take one."""
NOTE = RULE + """ The block cipher, CBC chaining, SHA-256 and the random generator are library code and trusted; that the
empty write that ends the stream is made by the writer is C01."""
LEVEL = "other"
SELF = mk("D", mk("p", "self"))
ENC, DEC = "BlockEncryptMut::encrypt_block_mut", "BlockDecryptMut::decrypt_block_mut"
MOD = "sevenz_rust::aes256sha256::"
ENCT, DECT = "Aes256Sha256Encoder", "Aes256Sha256Decoder"
MANY = ("BlockEncryptMut::encrypt_blocks_mut", "BlockDecryptMut::decrypt_blocks_mut")


def find(P, *need):
    r = [k for k in P.bodies if all(n in k for n in need) and "#" not in k and "{closure" not in k]
    return r[0] if len(r) == 1 else None


def check(rule, P):
    encoder(rule, P)
    decoder(rule, P)
    derivation(rule, P)
    stored(rule, P)
    randomness(rule, P)
    passwords(rule, P)
    rule.floor("encoder", 2)
    rule.floor("decoder", 3)
    rule.floor("derivation", 4)
    rule.floor("stored", 1)
    rule.floor("random", 2)
    rule.floor("password", 20)


# ---- (1), (2): tiling ------------------------------------------------------

def unlv(root):
    """in-place deciphering changes only chunks already visited: the rest of the buffer still is what was given"""
    def f(t):
        if t.op == "proj" and t.a[1][0] == "chunk":
            c = rewrite(t, lambda x: mk("D", x.a[2].a[0]) if x.op in ("lv", "lve") and x.a[2 if x.op == "lv" else 3] is root and not x.a[3 if x.op == "lv" else 4] else None)
            return c
        return t
    return f


class Tiling:
    def __init__(self, rule, key, where, cipher, bufcell, what):
        self.rule, self.key, self.where, self.cipher, self.bufcell, self.what = rule, key, where, cipher, bufcell, what
        self.mark = self.buflv = None

    def iterated(self, p, rest, now):
        """the end of one iteration"""
        if self.buflv is not None:
            kept = take(p, now, parts(p, self.buflv))
            if kept is None:
                return self.fail("the pending bytes are lost in a loop")
            if kept:
                if not same_parts(p, kept, rest) or not p.entails(lt(total(rest), C(16))):
                    return self.fail("a loop keeps %s while the bytes to do are %s" % (show(kept), show(rest)))
                rest = []
        want = self.mark(p) if self.mark else []
        if not same_parts(p, rest, want):
            return self.fail("after one round of a loop the bytes to do are %s, the loop goes on with %s" % (show(rest), show(want)))

    def run(self, ps, p, start, root=None, pad=False):
        """follow p; returns (rest, accumulated output length) or None after a report"""
        rest, acc, outs, hist = start, ZERO, [], []
        undo = (lambda x: mk("d", root.a[0]) if x.op == "lv" and x.a[2] is root and not x.a[3] else None) if root is not None else (lambda x: None)
        norm = lambda t: rewrite(t, undo) if root is not None else t
        if root is not None:
            orig, p = p, p.copy()
            p.facts = [norm(f) for f in p.facts]
            p.ret, p.kind = orig.ret, orig.kind
        self.outs = outs
        for i, e in enumerate(p.ev):
            if e.kind == "next" and e.name in ("item", "done") and e.vals[0].op == "it" and e.vals[0].a[0] == "chunks":
                it = e.vals[0]
                src = it.a[1]
                if src.op == "it" and src.a[0] == "seq":
                    src = src.a[1]
                c = norm(p.load(*cellof(src)) if src.op == "r" else src)
                while c.op == "upd" and c.a[1][0] == "chunk":       # chunks already visited
                    c = c.a[0]
                if not same_parts(p, parts(p, c), rest):
                    return self.fail("chunks of %s are taken while the bytes to do are %s" % (pp(c)[:120], show(rest)))
                if e.name == "done":
                    if self.buflv is not None and len(it.a) == 3:
                        rest = parts(p, self.buflv)
                        continue
                    rest = parts(p, mk("proj", c, ("chunkrem", it.a[2]))) if len(it.a) > 3 else []
                else:
                    rest = parts(p, norm(mk("proj", c, ("chunk", it.a[2], e.vals[1]))))
                    self.chunk = rest
                self.chunked = True
            if e.kind == "loop":
                rest = self.enter(p, e, rest)
                if rest is None:
                    return None
            if e.kind == "call" and e.name in MANY:
                return self.fail("several blocks are processed by one call: not followed")
            if e.kind == "call" and e.name == self.cipher:
                b = parts(p, norm(e.vals[1]))
                if not p.entails(eqi(total(b), C(16))):
                    return self.fail("a block of %s is given to the cipher" % show(b))
                zeros = None
                if pad and b and b[-1][0].op == "rep" and isc(b[-1][0].a[0], 0):
                    zeros, b = b[-1], b[:-1]
                r = take(p, rest, b)
                if r is None or zeros and r:
                    return self.fail("the cipher gets %s while the bytes to do are %s" % (show(b), show(rest)))
                rest = r
                outs.append(mk("out", e.ret, 1, e.args[1].a[1], e.args[1].a[2]) if e.args[1].op == "r" else e.ret)
                hist.append((e, norm))
            if e.kind == "call" and e.name.startswith("Write::write") and self.output(e):
                v = e.vals[1]
                if p.entails(eq0(length(v))):
                    continue
                hit = v.op == "out" and v.a[0].op == "call" and any(v.a[0] is h.ret for h, _ in hist)
                if not hit:
                    return self.fail("%s is given %s, which is not the cipher's output" % (e.name, pp(v)[:160]), e.where)
                if not outs or v.a[0] is not outs[0].a[0]:
                    return self.fail("cipher outputs are passed on twice or out of order", e.where)
                outs.pop(0)
                acc = add(acc, C(16))
        if outs and p.variant_of(p.ret) != "Err" if p.kind == "return" else outs:
            return self.fail("a block was put through the cipher and its result not passed on")
        return rest, acc

    def output(self, e):
        return True

    def enter(self, p, e, rest):
        """what the loop carries: a slice or an index that marks what is left, the pending buffer"""
        for root, path, lv, old in e.havoc:
            if root is SELF and path == self.bufcell:
                if parts(p, old):
                    return self.fail("a loop adds to the pending bytes %s while there are more bytes to do" % pp(old)[:80])
                self.buflv = lv
        for root, path, lv, old in e.havoc:
            if root.op == "L" and old.op in ("r", "p") and rest and same_parts(p, parts(p, p.load(*p.deref(old))), rest):
                self.mark = lambda q: parts(q, q.load(*q.deref(q.load(root, path))))
                return parts(p, mk("d", lv))
            if len(rest) == 1 and root.op == "L" and p.entails(eqi(old, rest[0][1])) and any(
                    x.op == "sl" and any(y is lv for y in subterms(x.a[1])) for q in p.ev for v in q.vals or () for x in subterms(v)):
                base, lo, hi = rest[0]
                self.mark = lambda q: tidy(q, [(base, q.load(root, path), hi)])
                return [(base, lv, hi)]
        return rest

    def fail(self, msg, where=None):
        self.rule.bad("%s:tiling" % self.key, where or self.where, "%s: %s" % (self.what, msg))
        return None


def cellof(r):
    return r.a[1], r.a[2]


def buffer_field(P, ps, rule):
    """the field of the object that keeps pending bytes: the one that input is appended to"""
    c = {}
    for p in ps:
        for e in p.ev:
            if e.kind == "call" and e.name in ("Vec::extend_from_slice", "Extend::extend", "Vec::append", "Write::write_all") and e.args[0].op == "r" and e.args[0].a[1] is SELF and len(e.args[0].a[2]) == 1:
                if e.name != "Write::write_all":
                    c[e.args[0].a[2]] = 1
    return list(c)


def encoder(rule, P):
    for fn in ("write", "flush"):
        k = find(P, ENCT, "std::io::write::Write>::" + fn)
        if k is None:
            rule.bad("missing:encoder." + fn, fn, "the Write implementation of the AES encoder was not found")
            continue
        e = flow.Engine(P)
        ps = e.run(k)
        rule.ran(e, ps, k)
        if fn == "write":
            bf = buffer_field(P, ps, rule)
            if len(bf) != 1:
                rule.bad("encoder:buffer", P.bodies[k].file(), "pending plaintext is not kept in one place: %s" % [x for x in bf])
                return
            bf = bf[0]
        where = "%s (%s)" % (k, P.bodies[k].file())
        for p in ps:
            if any(x.kind == "call" and x.name == "KeyIvInit::new" for x in p.ev):
                rule.bad("encoder:rekey", where, "the cipher is made anew in the middle of the stream")
            given = mk("d", mk("p", "buf")) if fn == "write" else None
            if p.kind == "panic":
                continue
            pend = project(p.init(SELF), bf)
            ending = fn == "flush" or p.entails(eq0(length(given)))
            accept = fn == "flush" or not ending
            t = Tiling(rule, "encoder." + fn, where, ENC, bf, "AES encoder")
            start = parts(p, pend)
            refused = p.kind == "return" and p.variant_of(p.ret) == "Ok" and fn == "write" and not ending and isc(field(p.ret, "0"), 0)
            if fn == "write" and not ending and not refused:
                start = join(p, start, parts(p, given))
            r = t.run(ps, p, start, pad=ending)
            if r is None:
                continue
            rest, acc = r
            if p.kind == "loop":
                t.iterated(p, rest, parts(p, p.load(SELF, bf)))
                continue
            if p.variant_of(p.ret) == "Err":
                continue
            now = parts(p, p.load(SELF, bf))
            done_now = fn == "write" and ending or fn == "flush" and (t_done(p) is True)
            if getattr(t, "chunk", None) and rest and same_parts(p, rest, t.chunk) and not p.entails(lt(total(rest), C(16))):
                rule.bad("encoder.%s:tiling" % fn, where, "AES encoder: the rest of the data after a chunk is dropped")
            if done_now and rest:
                rule.bad("encoder.%s:final" % fn, where, "AES encoder: at the end of the stream %s is not enciphered" % show(rest))
            elif not same_parts(p, now, rest):
                rule.bad("encoder.%s:pending" % fn, where, "AES encoder: the bytes not yet enciphered are %s, kept is %s" % (show(rest), show(now)))
        rule.ok("encoder", "%s: %d paths" % (k, len(ps)))


def t_done(p):
    """flush: has the end been signalled? The flag is the only bool read."""
    b = [f for f in p.facts if f.op not in ("ge0", "eq0", "ne0", "is", "or", "and")]
    for f in b:
        if f.op == "not":
            return False
        if origin(f) and origin(f)[0] is SELF:
            return True
    return None


def decoder(rule, P):
    level = {key for key, b in P.bodies.items() if "#" not in key and any(c.get("fn", "").endswith("decrypt_block_mut") for _, c in P.call_sites(b))}
    if not level:
        rule.bad("missing:decoder", MOD, "no function deciphers blocks")
        return
    seen = set(level)
    while True:
        # the function that deciphers what is given together with what was kept; a helper that deciphers one block is part of it
        shapes = []
        for k in sorted(level):
            b = P.bodies[k]
            data = [b.locals[i][1] for i in range(1, b.argc + 1) if "[u8]" in b.locals[i][0]]
            e = flow.Engine(P)
            ps = e.run(k)
            shapes.append((k, b, data, buffer_field(P, ps, rule), e, ps))
        if any(len(x[2]) == 1 and len(x[3]) == 1 for x in shapes):
            break
        up = {c for k in level for c in P.callers().get(k, ()) if "#" not in c and MOD in c} - seen
        if not up:
            break
        seen |= up
        level = up
    if len(shapes) != 1:
        rule.bad("missing:decoder", MOD, "no single function deciphers blocks: %s" % ", ".join(sorted(level)))
        return
    k, b, data, bf, e, ps = shapes[0]
    rule.ran(e, ps, k)
    where = "%s (%s)" % (k, b.file())
    if len(data) != 1 or len(bf) != 1:
        rule.bad("decoder:shape", where, "input %s, pending buffer %s" % (data, bf))
        return
    bf, root, given = bf[0], mk("D", mk("p", data[0])), mk("d", mk("p", data[0]))
    for p in ps:
        if p.kind == "panic":
            continue
        t = Tiling(rule, "decoder", where, DEC, bf, "AES decoder")
        start = join(p, parts(p, project(p.init(SELF), bf)), parts(p, given))
        r = t.run(ps, p, start, root=root)
        if r is None:
            continue
        undo = lambda x: given if x.op == "lv" and x.a[2] is root and not x.a[3] else None
        orig, p = p, p.copy()
        p.ret, p.kind = orig.ret, orig.kind
        p.facts = [rewrite(f, undo) for f in p.facts]
        rest, acc = r
        if p.kind == "loop":
            t.iterated(p, rest, parts(p, rewrite(p.load(SELF, bf), undo)))
            continue
        if p.variant_of(p.ret) == "Err":
            continue
        now = parts(p, rewrite(p.load(SELF, bf), undo))
        if getattr(t, "chunk", None) and rest and same_parts(p, rest, t.chunk) and not p.entails(lt(total(rest), C(16))):
            rule.bad("decoder:tiling", where, "AES decoder: the rest of the data after a chunk is dropped")
        if not same_parts(p, now, rest):
            rule.bad("decoder:pending", where, "AES decoder: the bytes not yet deciphered are %s, kept is %s" % (show(rest), show(now)))
        if rest and rest[0][0] is not t.buflv and not p.entails(lt(total(rest), C(16))):
            rule.bad("decoder:pending", where, "AES decoder: a whole block is kept back: %s" % show(rest))
    reported(rule, ps, where)
    rule.ok("decoder", "%s: %d paths" % (k, len(ps)))
    final(rule, P, k, bf)
    reader(rule, P, k)


def written(p, i0, i1):
    n = ZERO
    for e in p.ev[i0:i1]:
        if e.kind == "call" and e.name == "Write::write_all" and p.variant_of(e.ret) == "Ok":
            n = add(n, C(16))
    return n


def fix16(t):
    """lengths of cipher outputs are 16"""
    return rewrite(t, lambda x: C(16) if x.op == "len" and any(y.op == "call" and y.a[0] in (ENC, DEC) for y in subterms(x)) else None)


def reported(rule, ps, where):
    """the number returned is the number of bytes handed on"""
    for p in ps:
        if p.kind == "panic" or p.kind == "return" and p.variant_of(p.ret) == "Err":
            continue
        acc, i0, cells = ZERO, 0, []
        for i, e in enumerate(p.ev):
            if e.kind == "loop":
                n = add(acc, written(p, i0, i))
                cells = [(r, pa, lv) for r, pa, lv, old in e.havoc if r.op == "L" and p.entails(eqi(fix16(old), n))]
                if cells:
                    acc, i0 = cells[0][2], i
        n = add(acc, written(p, i0, len(p.ev)))
        if p.kind == "loop":
            if cells and not any(p.entails(eqi(fix16(p.load(r, pa)), add(lv, written(p, i0, len(p.ev))))) for r, pa, lv in cells):
                rule.bad("decoder:count", where, "AES decoder: the count of bytes handed on does not follow what was handed on")
        elif not p.entails(eqi(fix16(field(p.ret, "0")), n)) and not any(p.entails(eqi(fix16(field(p.ret, "0")), add(lv, written(p, i0, len(p.ev))))) for r, pa, lv in cells):
            rule.bad("decoder:count", where, "AES decoder: reports %s bytes, %s were handed on" % (pp(p.ret)[:80], pp(n)[:80]))


def final(rule, P, upd, bf):
    """end of input with a partial block pending is an error"""
    k = find(P, DECT, "std::io::read::Read>::read")
    if k is None:
        rule.bad("missing:decoder.read", MOD, "the Read implementation of the AES decoder was not found")
        return
    e = flow.Engine(P, opaque=[upd])
    ps = e.run(k)
    rule.ran(e, ps, k)
    where = "%s (%s)" % (k, P.bodies[k].file())
    n = 0
    for p in ps:
        if p.kind != "return" or p.variant_of(p.ret) != "Ok":
            continue
        rd = [x for x in p.ev if x.kind == "call" and x.name == "Read::read"]
        if not rd or not p.entails(eq0(field(vfield(rd[-1].ret, "Ok"), "0"))):
            continue
        n += 1
        # the pending buffer is a field of the cipher inside self
        cells = [x for f in p.facts for x in subterms(f) if x.op == "len" and origin(x.a[0]) and origin(x.a[0])[0] is SELF and origin(x.a[0])[1][-1:] == bf[-1:]]
        if not any(p.entails(eq0(c)) for c in cells):
            rule.bad("decoder:partial", where, "AES decoder: the stream ends with bytes of an incomplete block pending, and no error is reported")
    if n:
        rule.ok("decoder", "%s: %d paths to the end of the input" % (k, n))


def reader(rule, P, upd):
    """what read() delivers is what was deciphered, from where it left off, once"""
    k = find(P, DECT, "std::io::read::Read>::read")
    if k is None:
        return
    e = flow.Engine(P, opaque=[upd])
    ps = e.run(k)
    b = P.bodies[k]
    where = "%s (%s)" % (k, b.file())
    buf = mk("D", mk("p", b.locals[2][1]))
    n = 0
    roles = set()
    for p in ps:
        if p.kind != "return" or p.variant_of(p.ret) != "Ok":
            continue
        cnt = field(p.ret, "0")
        if p.entails(eq0(cnt)):
            continue
        c = cut(p, parts(p, p.load(buf)), ZERO, cnt)
        if len(c) != 1 or not p.entails(eqi(total(c), cnt)):
            rule.bad("decoder.read:data", where, "AES decoder: delivers %s" % show(c))
            continue
        base, lo, hi = c[0]
        o = origin(base)
        if o is None or o[0] is not SELF:
            rule.bad("decoder.read:data", where, "AES decoder: delivers %s, not deciphered bytes" % show(c))
            continue
        adv = [pa for pa in fields(p) if p.entails(eqi(p.load(SELF, pa), hi)) and p.load(SELF, pa) is not project(p.init(SELF), pa)]
        srt = [pa for pa in adv if origin(lo) == (SELF, pa) or isc(lo, 0) or p.entails(eqi(lo, ZERO))]
        if not srt:
            rule.bad("decoder.read:advance", where, "AES decoder: after delivering %s the position of the rest is not kept" % show(c))
            continue
        roles.add((o[1], tuple(sorted(map(str, srt)))))
        n += 1
    for p in ps:
        for x in p.ev:
            if x.kind == "call" and short(upd) == x.name or x.kind == "call" and isinstance(x.callee, dict) and x.callee.get("res") == upd:
                src = x.vals[1]
                rd = [y for y in p.ev[:p.ev.index(x)] if y.kind == "call" and y.name == "Read::read"]
                cnt = field(vfield(rd[-1].ret, "Ok"), "0") if rd else None
                if not rd or not (p.entails(eqi(length(src), cnt)) and src.op in ("sl", "out", "oute") and rd[-1].ret in subterms(src)):
                    rule.bad("decoder.read:input", where, "AES decoder: deciphers %s, not the bytes just read" % pp(src)[:160])
    if n:
        rule.ok("decoder", "%s: %d delivering paths" % (k, n))


def short(k):
    return flow.short(k) if hasattr(flow, "short") else k


def fields(p):
    v = p.store.get(SELF)
    return [(("f", n),) for n, _ in v.a[1]] if v is not None and v.op == "u" else []


# ---- (3): derivation --------------------------------------------------------

def named(txt):
    names = {}
    txt = re.sub(r"\biv\d+\b", lambda m: names.setdefault(m.group(0), "iv#%d" % len(names)), txt)
    txt = re.sub(r"[\w:@/<>]*@\d+/", "", txt)
    return re.sub(r"_\d+\b", "_", txt)


KDF = ("Digest::", "KeyIvInit::new", "num::")


def base_of(t):
    while t.op in ("ue", "usl", "upd"):
        t = t.a[0]
    return t


def descriptor(p, sub):
    out = []
    for e in p.ev:
        if e.kind == "call" and e.name.startswith(KDF):
            state = lambda x: mk("K", "state") if x.op == "out" and x.a[0].op == "call" and x.a[0].a[0].startswith(KDF) else None
            out.append((e.name,) + tuple(canon(rewrite(v, state), sub) for v in e.vals))
        elif e.kind == "next":
            local = lambda x: mk("K", "local") if base_of(x).op in ("uninit", "lv", "lve") else None
            out.append(("next " + e.name, canon(rewrite(e.vals[3], local), sub)))
    return out


def derivation(rule, P):
    ke, kd = find(P, ENCT, ">::new"), find(P, DECT, ">::new")
    kp = find(P, "AesEncoderOptions::properties")
    if not ke or not kd or not kp:
        rule.bad("missing:constructors", MOD, "constructors of the AES codec not found")
        return
    e = flow.Engine(P)
    pw = e.run(kp)
    rule.ran(e, pw, kp)
    rets = {p.ret for p in pw if p.kind == "return"}
    if len(rets) != 1:
        rule.bad("properties:value", kp, "the property bytes are not one value")
        return
    OPT, PW, SALT, IV, NCP = (mk("K", x) for x in ("options", "password", "salt", "iv", "rounds"))
    optw = mk("d", mk("p", P.bodies[kp].locals[1][1]))
    W = canon(next(iter(rets)), lambda x: {"salt": SALT16(SALT), "iv": SALT16(IV), "num_cycles_power": BYTE(NCP)}.get(x.a[1]) if x.op == "f" and x.a[0] is optw else None)
    be, bd = P.bodies[ke], P.bodies[kd]
    oe = [mk("d", mk("p", be.locals[i][1])) for i in range(1, be.argc + 1) if "AesEncoderOptions" in be.locals[i][0]]
    bs = [be2 for be2 in (mk("d", mk("p", bd.locals[i][1])) for i in range(1, bd.argc + 1) if "[u8]" in bd.locals[i][0])]
    if len(oe) != 1 or len(bs) != 2:
        rule.bad("derivation:shape", ke, "constructor arguments")
        return
    oe = oe[0]

    def sub_enc(x):
        if x.op == "f" and x.a[0].op == "f" and x.a[0].a[0] is oe and x.a[0].a[1] == "password":
            return PW
        if x.op == "f" and x.a[0] is oe:
            return {"salt": SALT16(SALT), "iv": SALT16(IV), "num_cycles_power": BYTE(NCP), "password": mk("K", "pw")}.get(x.a[1])
        return None
    runs = {}
    for nm, k in (("encoder", ke), ("decoder", kd)):
        en = flow.Engine(P)
        ps = en.run(k)
        rule.ran(en, ps, k)
        runs[nm] = (k, ps)
        for p in ps:
            n = [x for x in p.ev if x.kind == "call" and x.name == "KeyIvInit::new"]
            if p.kind == "return" and p.variant_of(p.ret) == "Ok" and len(n) != 1:
                rule.bad("%s:key" % nm, k, "%d cipher objects are made" % len(n))
    best = None
    for props, pwd in ((bs[0], bs[1]), (bs[1], bs[0])):
        def sub_dec(x, props=props, pwd=pwd):
            return W if x is props else PW if x is pwd else None
        ds = {}
        for nm, sub in (("encoder", sub_enc), ("decoder", sub_dec)):
            s = {}
            for p in runs[nm][1]:
                if p.kind == "panic" or p.kind == "return" and p.variant_of(p.ret) == "Err":
                    continue
                if any(canon(f, sub) is FALSE or canon(f, sub).op == "c" and canon(f, sub).a[0] is False for f in p.facts):
                    continue
                d = descriptor(p, sub)
                s[named(" ; ".join("%s(%s)" % (x[0], ", ".join(pp(v) for v in x[1:])) for x in d))] = p
            ds[nm] = s
        diff = set(ds["encoder"]) ^ set(ds["decoder"])
        if best is None or len(diff) < len(best[0]):
            best = (diff, ds, props, pwd)
    diff, ds, props, pwd = best
    if diff:
        for d in sorted(diff)[:2]:
            rule.bad("derivation:differs", "%s / %s" % (ke, kd), "only the %s derives its key by: %s" % ("encoder" if d in ds["encoder"] else "decoder", d[:700]))
    else:
        rule.ok("derivation", "encoder and decoder agree on %d derivation paths" % len(ds["encoder"]))
    # the values the encoder's derivation uses are the options' own
    uses = {"salt": 0, "password": 0, "rounds": 0, "iv": 0}
    for p in runs["encoder"][1]:
        d = descriptor(p, sub_enc)
        for x in d:
            if x[0] == "Digest::update":
                for nm, want in (("salt", SALT16(SALT)), ("password", PW)):
                    uses[nm] += x[2] is want
            if x[0] == "KeyIvInit::new":
                uses["iv"] += any(v is SALT16(IV) or v.op == "call" and cvals(v) and cvals(v)[0] is SALT16(IV) for v in x[1:])
            if x[0].startswith("next"):
                uses["rounds"] += any(y is BYTE(NCP) for v in x[1:] for y in subterms(v))
    for nm, n in uses.items():
        if not n:
            rule.bad("derivation:" + nm, ke, "the key or cipher made from the options does not use their %s as stored in the property bytes" % nm)
        else:
            rule.ok("derivation", "the options' %s enters the encoder's derivation as the decoder reads it" % nm)
    layout_(rule, P, runs["decoder"], props)


def BYTE(t):
    tyof.setdefault(t, "u8")
    return t


def SALT16(t):
    return mk("arr", t, C(16))


def layout_(rule, P, run, props):
    """7z: byte 0 = rounds | (salt bit << 7) | (iv bit << 6); byte 1 = salt size - bit << 4 | iv size - bit; salt; iv"""
    k, ps = run
    b0, b1 = elem(props, C(0)), elem(props, C(1))
    bit = lambda t, lo, hi: normal(mk("band", C((1 << (hi - lo)) - 1), mk("shr", BYTE(t), C(lo)) if lo else BYTE(t)))
    S = add(bit(b0, 7, 8), bit(b1, 4, 8))
    V = add(bit(b0, 6, 7), bit(b1, 0, 4))
    salt = mk("sl", props, C(2), add(C(2), S))
    iv = mk("sl", props, add(C(2), S), add(C(2), add(S, V)))
    seen = {"salt": 0, "iv": 0}
    for p in ps:
        for x in descriptor(p, lambda t: None):
            for v in x[1:]:
                for y in subterms(v):
                    if y.op == "sl" and y.a[0] is props:
                        if y is salt:
                            seen["salt"] += 1
                        elif y is iv:
                            seen["iv"] += 1
                        else:
                            rule.bad("layout", k, "the derivation uses the property bytes %s..%s; the format has the salt at 2..%s and the IV after it" % (pp(y.a[1])[:120], pp(y.a[2])[:200], pp(salt.a[2])[:120]))
                    elif y.op == "e" and y.a[0] is props and y is not b0 and y is not b1:
                        rule.bad("layout", k, "the derivation uses the property byte %s" % pp(y.a[1])[:80])
    for nm, n in seen.items():
        if n:
            rule.ok("derivation", "%s is taken from its place in the format on %d paths" % (nm, n))
        else:
            rule.bad("layout:" + nm, k, "the %s is not taken from its place in the property bytes" % nm)


# ---- (4) ---------------------------------------------------------------------

def stored(rule, P):
    """the header gets the property bytes of the coder's own options"""
    kp = find(P, "AesEncoderOptions::properties")
    if kp is None:
        return
    e = flow.Engine(P)
    pw = e.run(kp)
    names = {"salt": SALT16(mk("K", "salt")), "iv": SALT16(mk("K", "iv")), "num_cycles_power": BYTE(mk("K", "rounds"))}
    users = callers_of(P, lambda k: "AesEncoderOptions" in k and ("properties" in k), skip=kp)
    for k in sorted(users):
        b = P.bodies[k]
        if ENCT in k or "[u8]" not in b.locals[0][0]:
            continue
        e = flow.Engine(P)
        ps = e.run(k)
        rule.ran(e, ps, k)
        n = 0
        for p in ps:
            if p.kind != "return":
                continue
            v = p.ret
            v = p.load(*cellof(v)) if v.op == "r" else v
            if not any(x.op == "f" and x.a[1] in ("salt", "iv") for x in subterms(v)):
                if any(x.op == "f" and x.a[1] == "num_cycles_power" for x in subterms(v)):
                    rule.bad("stored", k, "the property bytes of an AES coder lack salt and IV: %s" % pp(v)[:200])
                continue
            n += 1
            sub = lambda x: names.get(x.a[1]) if x.op == "f" and any(y.op == "v" and y.a[1] == "Aes" for y in subterms(x)) else None
            q = p.copy()
            want = [canon(w.ret, lambda x: names.get(x.a[1]) if x.op == "f" and x.a[0] is mk("d", mk("p", P.bodies[kp].locals[1][1])) else None) for w in pw if w.kind == "return"]
            got = parts(q, canon(v, sub))
            if not want or not all(same_parts(q, got, parts(q, w)) for w in want):
                rule.bad("stored", k, "the property bytes stored for an AES coder are %s, those its key is derived from are %s" % (show(got), show(parts(q, want[0])) if want else "?"))
        if n:
            rule.ok("stored", "%s: %d paths" % (k, n))


def callers_of(P, pred, skip=None):
    out = set()
    for k, b in P.bodies.items():
        if "#" not in k and k != skip and "AesEncoderOptions" not in k and any(c.get("res") in P.bodies and pred(c["res"]) for _, c in P.call_sites(b)):
            out.add(k)
    return out


# ---- (5) ---------------------------------------------------------------------

RANDOM = ("Rng::gen", "Rng::fill", "RngCore::fill_bytes", "Rng::gen_range", "rand::random", "random::random", "RngCore::next_u32", "RngCore::next_u64", "Rng::random", "RngCore::try_fill_bytes")


def randomness(rule, P):
    k = find(P, "AesEncoderOptions::new") or next((x for x in P.bodies if x.endswith("AesEncoderOptions::new")), None)
    if k is None:
        rule.bad("missing:options", MOD, "AesEncoderOptions::new not found")
        return
    e = flow.Engine(P)
    ps = e.run(k)
    rule.ran(e, ps, k)
    where = "%s (%s)" % (k, P.bodies[k].file())
    israndom = lambda t: any(x.op == "call" and (x.a[0] in RANDOM or x.a[0].endswith("::random")) for x in subterms(t))
    for p in ps:
        if p.kind != "return":
            continue
        used = {}
        for f in ("iv", "salt"):
            v = field(p.ret, f)
            src = None
            if v.op in ("lve", "lv"):
                # every element assigned from the generator by a loop over the whole array
                cell = origin(v)
                for i, x in enumerate(p.ev):
                    if x.kind == "next" and x.name == "done" and seq_of(x) is not None and origin(seq_of(x)) == cell and (v.op != "lve" or x.ctx == v.a[1]):
                        its = iterations(ps, x)
                        good = bool(its)
                        for q, y in its:
                            w = q.load(cell[0], cell[1])
                            el = elem(w, y.vals[1])
                            good = good and el.op == "call" and israndom(el)
                        if good:
                            src = ("loop", x.ctx, x.bb)
            elif v.op in ("call", "out", "oute"):
                c = v if v.op == "call" else v.a[0] if v.op == "out" else v.a[1]
                if c.a[0] in RANDOM or c.a[0].endswith("::random"):
                    src = ("call", c.id, v.id)
            if src is None:
                rule.bad("random:" + f, where, "the %s of new options is %s, not the output of a random generator" % (f, pp(v)[:200]))
            else:
                used[f] = src
                rule.ok("random", "%s from %s" % (f, src[0]))
        if len(used) == 2 and used["iv"] == used["salt"]:
            rule.bad("random:same", where, "IV and salt are the same random value")


# ---- (6) ---------------------------------------------------------------------

def passwords(rule, P):
    # a cipher object only with a non-empty password
    for nm in (ENCT, DECT):
        k = find(P, nm, ">::new")
        if k is None:
            continue
        e = flow.Engine(P)
        ps = e.run(k)
        b = P.bodies[k]
        where = "%s (%s)" % (k, b.file())
        for p in ps:
            made = any(x.kind == "call" and x.name == "KeyIvInit::new" for x in p.ev)
            hashed = [x.vals[1] for x in p.ev if x.kind == "call" and x.name == "Digest::update"]
            ln = pwlen(b)
            if made and not p.entails(ne0(ln)):
                rule.bad("%s:empty-password" % nm, where, "a cipher is made on a path where the password may be empty")
            if p.kind == "return" and p.entails(eq0(ln)) and p.variant_of(p.ret) == "Ok":
                rule.bad("%s:empty-password" % nm, where, "an empty password is accepted")
        req = [p for p in ps if p.kind == "return" and p.variant_of(p.ret) == "Err" and variant(field(p.ret, "0")) == "PasswordRequired" and p.entails(eq0(pwlen(b)))]
        oth = [p for p in ps if p.kind == "return" and p.variant_of(p.ret) == "Err" and variant(field(p.ret, "0")) != "PasswordRequired" and p.entails(eq0(pwlen(b)))]
        if not req or oth:
            rule.bad("%s:password-required" % nm, where, "an empty password is not reported as PasswordRequired" + (" but as %s" % pp(oth[0].ret)[:80] if oth else ""))
        else:
            rule.ok("password", "%s: empty password gives PasswordRequired" % k)
    forward(rule, P)


def pwlen(b):
    for i in range(1, b.argc + 1):
        ty, nm = b.locals[i]
        if "AesEncoderOptions" in ty:
            return length(field(field(mk("d", mk("p", nm)), "password"), "0"))
    for i in range(1, b.argc + 1):
        ty, nm = b.locals[i]
        if "[u8]" in ty and "pass" in (nm or ""):
            return length(mk("d", mk("p", nm)))
    i = max(i for i in range(1, b.argc + 1) if "[u8]" in b.locals[i][0])
    return length(mk("d", mk("p", b.locals[i][1])))


def takes(b):
    """indices of arguments that are passwords"""
    return [i - 1 for i in range(1, b.argc + 1) if is_pw(b.locals[i][0], b.locals[i][1])]


def is_pw(ty, nm):
    t = ty.lstrip("&").split(" mut ")[-1].strip()
    return t.endswith("password::Password") or ("password" == (nm or "").strip("_") and "[u8]" in ty)


def secret(P):
    """is a term made from the caller's password only?"""
    def own(t):
        roots = [x for x in subterms(t) if x.op == "p"]
        return roots
    return own


def forward(rule, P):
    for k, b in sorted(P.bodies.items()):
        if "#" in k or not k.startswith(("sevenz_rust::", "<sevenz_rust::")) or "password::" in k.split(">")[0].split("::Password")[0] and "password::Password" in k:
            continue
        sites = [(bb, c) for bb, c in P.call_sites(b) if c.get("res") in P.bodies and takes(P.bodies[c["res"]])]
        if not sites:
            continue
        has = takes(b)
        selfpw = any("password" in (f or "") for f in ())
        e = flow.Engine(P, inline=False)
        ps = e.run(k)
        rule.ran(e, ps, k)
        for p in ps:
            for x in p.ev:
                if x.kind != "call" or not isinstance(x.callee, dict) or x.callee.get("res") not in P.bodies:
                    continue
                tb = P.bodies[x.callee["res"]]
                if DECT in x.callee["res"] and x.callee["res"].endswith("::new"):
                    for i in range(1, tb.argc + 1):
                        if "[u8]" in tb.locals[i][0] and not is_pw(tb.locals[i][0], tb.locals[i][1]):
                            v = x.vals[i - 1]
                            c = v.a[0] if v.op in ("d", "derefd") else v
                            o = [y for y in subterms(c) if y.op in ("f", "r") and ("properties" == y.a[1] if y.op == "f" else ("f", "properties") in y.a[2])]
                            if not o or any(y.op in ("sl", "usl", "ue") or y.op == "r" and any(z[0] in ("sl", "i") for z in y.a[2]) for y in subterms(v)):
                                rule.bad("decoder:properties", x.where, "the AES decoder is given %s, not the coder's property bytes" % pp(v)[:160])
                for i in takes(tb):
                    if i >= len(x.args):
                        continue
                    v = x.vals[i] if x.args[i].op == "r" else x.args[i]
                    key = "%s -> %s" % (k, x.name)
                    if not from_password(P, b, v, x.args[i], has):
                        rule.bad("forward:" + key, x.where, "%s has a password and passes %s to %s" % (k, pp(v)[:120], x.name))
                    else:
                        DONE.setdefault(id(rule), set()).add(key)
    for key in sorted(DONE.get(id(rule), ())):
        rule.ok("password", key)


DONE = {}
VIEW = ("Deref::deref", "AsRef::as_ref", "Password::as_slice", "slice::to_vec", "Clone::clone", "Password::to_vec", "Into::into", "From::from", "ToOwned::to_owned", "Borrow::borrow", "Vec::as_slice")


def from_password(P, b, v, arg, has):
    """v is this function's password (argument, or password field of an argument), seen through views and copies; functions
    that have none themselves may pass the empty password"""
    seen = 0
    todo, n = [v, arg], 0
    for t in todo:
        while True:
            if t.op == "r":
                root, path = t.a[1], t.a[2]
                if root.op == "D" and root.a[0].op == "p":
                    if path and path[-1] == ("f", "password") or path[-2:-1] == (("f", "password"),) or not path and pwarg(b, root.a[0], has):
                        return True
                if root.op == "D" and not path:
                    t = root.a[0]
                    continue
                if root.op == "L" and (root.a[1] if len(root.a) > 1 else None) in [i + 1 for i in has]:
                    return True
                break
            if t.op in ("D", "d"):
                t = t.a[0]
                continue
            if t.op == "p":
                if pwarg(b, t, has):
                    return True
                break
            if t.op == "f" and t.a[1] == "password":
                return True
            if t.op == "f" and t.a[1] == "0":
                t = t.a[0]
                continue
            if t.op in ("call", "pure") and (t.a[0].endswith(tuple(x.split("::")[1] for x in VIEW))) and cvals(t):
                todo.append(cvals(t)[0])
                if t.op == "call" and t.a[1]:
                    todo.append(t.a[1][0])
                break
            if t.op == "derefd":
                t = t.a[0]
                continue
            break
        n += 1
        if n > 12:
            break
    if not has and not field_password(b):
        w = v
        return w.op == "call" and w.a[0].endswith("Password::empty") or any(x.op == "call" and x.a[0].endswith("::empty") for x in subterms(v)) or any(x.op == "call" and x.a[0].endswith("::empty") for x in subterms(arg))
    return False


def field_password(b):
    return any("SevenZReader" in b.locals[i][0] or "BlockDecoder" in b.locals[i][0] for i in range(1, b.argc + 1))


def pwarg(b, t, has):
    return any(b.locals[i + 1][1] == t.a[0] for i in has)
