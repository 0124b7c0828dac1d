"""With header encryption on, entry names never reach the output in clear."""
from sa.terms import *
from sa import flow
from sa.prov import *
from checks import wstream as w

TECHNIQUE = "information-flow path rules (abstract interpretation of MIR)"
RULE = """write_encoded_header: the raw header (the buffer write_header filled) flows to the header handed back to finish, to the
output, or into an encoder chain without AES, only on dataflow paths that prove one of: `encrypt_header` is off, or a scan of
all content methods ended with every examined method id known to differ from AES256SHA256. On every other path the chain is
created from a list holding a configuration whose method and options are those of one content method whose id was found
equal to the AES id, and neither the output nor the header receives raw header bytes. write_header always fills a local
buffer. `encrypt_header` starts true and set_encrypt_header stores exactly its argument."""
NOTE = RULE + " That finish writes nothing but the header given back by write_encoded_header is C10."
AES = (6, 241, 7, 1)
AESNAME = tuple(b"AES256SHA256")    # methods are only the constants of the crate, so name and id stand for each other
HDR = "SevenZWriter::write_header"
WEH = "SevenZWriter::write_encoded_header"


def const_bytes(t):
    if t.op == "a" and t.a[0] == "array":
        v = [x.a[0] if x.op == "c" else None for x in t.a[3]]
        return tuple(v)
    if t.op == "b":
        return tuple(t.a[0]) if isinstance(t.a[0], (bytes, tuple)) else None
    if t.op in ("s", "k") and isinstance(t.a[0], (str, bytes)):
        return tuple(t.a[0].encode() if isinstance(t.a[0], str) else t.a[0])
    return None


def method_of(t):
    """element of content_methods whose method id the term is, or None"""
    if t.op == "d":
        t = t.a[0]
    if t.op == "u":
        t = t.a[0]
    if t.op == "f" and t.a[1] in ("0", "1") and t.a[0].op == "f" and t.a[0].a[1] == "method":
        x = t.a[0].a[0]
        return x if from_methods(x) else None
    return None


def from_methods(x):
    while x.op in ("e", "d", "u", "rc"):
        x = x.a[0]
    return x.op == "f" and x.a[1] == "content_methods"


def id_fact(f):
    """(element, equal?) for a fact comparing a content method's id with the AES id"""
    pos = True
    while f.op == "not":
        f, pos = f.a[0], not pos
    if f.op in ("eq0", "ne0"):
        return None
    if f.op == "pure" and f.a[0] in ("eq", "ne") or f.op in ("eq", "ne"):
        a = [x for x in subargs(f)]
        nm = f.a[0] if f.op == "pure" else f.op
        for x, y in (a, a[::-1]) if len(a) == 2 else ():
            if const_bytes(y) in (AES, AESNAME) and method_of(x) is not None:
                return method_of(x), pos == (nm == "eq")
    return None


def subargs(f):
    xs = f.a[1:] if f.op == "pure" else f.a
    if len(xs) == 1 and isinstance(xs[0], tuple):
        xs = xs[0]
    return [x for x in xs if hasattr(x, "op")]


def flag_off(p):
    for f in p.facts:
        if f.op == "not":
            x = f.a[0]
            if x.op == "f" and x.a[1] == "encrypt_header":
                return True
        if f.op == "eq0" and any(s.op == "f" and s.a[1] == "encrypt_header" for s in subterms(f)):
            return True
    return False


def whole_scan(t):
    while t.op == "it" and t.a[0] in ("map", "enumerate", "cloned", "copied", "deref", "rev", "inspect", "peekable", "fuse", "filter"):
        t = t.a[1]
    if t.op != "it" or t.a[0] != "seq":
        return False
    c = t.a[1]
    if c.op == "r":
        # the cell is reached through the content_methods field
        path = [x for x in c.a[2] if x[0] == "f"]
        r = c.a[1]
        return bool(path and path[-1][1] == "content_methods") or any(s.op == "f" and s.a[1] == "content_methods" for s in subterms(r))
    return False


def all_methods(t):
    """the iteration covers every content method"""
    if whole_scan(t):
        return True
    while t.op == "it" and t.a[0] in ("map", "enumerate", "rev", "inspect", "peekable", "fuse", "filter"):
        t = t.a[1]
    r = t.a[1:3] if t.op == "it" and t.a[0] == "range" else None
    return bool(r) and isc(r[0], 0) and is_count(r[1])


def is_count(t):
    return t.op == "len" and from_methods(t.a[0]) or t.op == "call" and t.a[0].endswith("::len") and any(from_methods(x) for x in t.a[2])


def scanned(p, ps):
    """a scan of all content methods ended without a hit"""
    for e in p.ev:
        if e.kind == "next" and e.name == "done" and all_methods(e.vals[0]):
            its = []
            for q in ps:
                if q.kind == "loop" and own_step(q, e):
                    its.append(q)
            if its and all(any((r := id_fact(f)) and not r[1] for f in q.facts) for q in its):
                return True
    # a flag collected by the scan: every iteration that does not rule AES out leaves it set
    for f in p.facts:
        x = f.a[0] if f.op in ("not", "eq0") else None
        if x is not None and x.op == "lin":
            vs = [y for y in subterms(x) if y.op == "lv"]
            x = vs[0] if len(vs) == 1 else x
        if x is None or x.op != "lv":
            continue
        ctx = lvctx(x)
        its = [q for q in ps if q.kind == "loop" and q.x["loop"] == ctx[:2]]
        if its and all(any((r := id_fact(g)) and not r[1] for g in q.facts) or set_after(q, ctx) for q in its) and reaches_end(p):
            return True
    return False


def own_step(q, e):
    """the round q ends is one of the loop that steps at e, and not of a later loop"""
    at = [i for i, x in enumerate(q.ev) if x.kind == "loop" and x.x == q.x["loop"]]
    step = next((x for x in q.ev[at[-1]:] if x.kind == "next"), None) if at else None
    return step is not None and step.name == "item" and (step.ctx, step.bb) == (e.ctx, e.bb)


def set_after(q, ctx):
    v = q.load(ctx[2], ctx[3])
    return q.entails(v) or q.entails(ne0(v))


def reaches_end(p):
    if any(e.kind == "next" and e.name == "done" and all_methods(e.vals[0]) for e in p.ev):
        return True
    return any(f.op == "ge0" and any(is_count(t) for t in subterms(f)) and not any(t.op == "iv" for t in subterms(f)) for f in p.facts)


def counts_to_end(p, its, ctx):
    """the loop that carries ctx counts 0, 1, .. and was left when the count reached the number of content methods"""
    for f in p.facts:
        if f.op != "ge0":
            continue
        for t, c in lin(f.a[0])[1].items():
            if c == 1 and t.op == "lv" and lvctx(t)[:2] == ctx[:2] and isc(p.x.get(("init", t), t), 0) and any(is_count(y) and k == -1 for y, k in lin(f.a[0])[1].items()) and lin(f.a[0])[0] <= 0:
                if all(q.load(*lvctx(t)[2:4]) is add(t, ONE) for q in its):
                    return True
    return False


def leaks(v, raw):
    """do bytes of `raw` appear in the value v (not merely its length, checksum or encoding)?"""
    if v is raw:
        return True
    if v.op in ("call", "out", "oute", "len", "pure", "lv", "lve", "lin"):
        return False
    return any(leaks(x, raw) for x in children(v))


def children(v):
    for x in v.a:
        if hasattr(x, "op"):
            yield x
        elif isinstance(x, tuple):
            for y in x:
                if hasattr(y, "op"):
                    yield y


def elements(v):
    while v.op in ("push", "cat"):
        if v.op == "push":
            yield v.a[1]
        else:
            yield from elements(v.a[1])
        v = v.a[0]
    if v.op == "a" and v.a[0] == "array":
        yield from v.a[3]


def has_aes(p, methods, ps):
    known = {r[0] for f in p.facts if (r := id_fact(f)) and r[1]}
    for x in elements(methods):
        for k in known:
            if x is k or field(x, "options") is field(k, "options") and field(x, "method") is field(k, "method"):
                return True
    base = methods
    while base.op in ("push", "cat"):
        base = base.a[0]
    if base.op in ("lv", "lve"):
        # collected by a loop: some iteration that found the AES id pushed that method, and the path knows one did
        ctx = lvctx(base)
        its = [q for q in ps if q.kind == "loop" and q.x["loop"] == ctx[:2]]
        if its and counts_to_end(p, its, ctx) and all(
                any((r := id_fact(g)) and not r[1] for g in q.facts) or (v := q.load(ctx[2], ctx[3])).op == "push" and has_aes(q, v, ps) for q in its):
            return True
        for q, vals in pushed_per_iteration(ps, base) or ():
            v = q.load(ctx[2], ctx[3])
            if v.op == "push" and has_aes(q, v, ps) and any(f.op in ("lv", "ne0") for f in p.facts):
                return True
    return False


def check(rule, P):
    key, ps = w.run(P, rule, "write_encoded_header")
    if key is None:
        rule.bad("missing:write_encoded_header", "-", "function not found")
        return
    where = "%s (%s)" % (key, P.bodies[key].file())
    harg = mk("D", mk("p", P.bodies[key].locals[2][1] or "arg2"))
    outc = (w.SELF, (("f", "output"),))
    secret = plain = 0
    for p in ps:
        if p.kind == "panic":
            continue
        hw = [e for e in p.ev if e.kind == "call" and e.name == HDR]
        raws = []
        for e in hw:
            c = refcell(e.args[1])
            if c is None or c[0] is harg or c[0] is outc[0]:
                rule.bad("direct", e.where, "the raw header is written to %s, not to a buffer of its own" % pp(e.args[1]))
                continue
            raws.append(mk("out", e.ret, 1, c[0], c[1]))
        if not raws:
            continue
        cw = [e for e in p.ev if e.kind == "call" and e.name == w.CREATE]
        targets = []
        for i, e in enumerate(p.ev):
            if e.kind in ("call", "sink") and len(e.args) > 1 and e.args[0].op == "r" and (e.name.startswith(("Write", "Vec::", "Extend::", "io::copy")) or e.kind == "sink"):
                c = (e.args[0].a[1], e.args[0].a[2])
                if c[0] is harg or c == outc:
                    for v in e.vals[1:] or e.args[1:]:
                        if any(leaks(v, r) or v.op == "r" and leaks(p.load(v.a[1], v.a[2]), r) for r in raws):
                            targets.append(e)
        noenc = [e for e in cw if not has_aes(p, e.vals[0], ps)]
        if not targets and not noenc:
            if cw and p.kind == "return" and p.variant_of(p.ret) == "Ok":
                secret += 1
            continue
        if flag_off(p) or scanned(p, ps):
            plain += 1
            continue
        if targets:
            rule.bad("clear", targets[0].where, "the raw header is written in clear on a path that has not ruled out header encryption; facts [%s]" % ", ".join(pp(f) for f in p.facts if "encrypt" in pp(f) or "method" in pp(f))[:400])
        else:
            rule.bad("chain", noenc[0].where, "the header is encoded by %s, without the configured AES stage, on a path that has not ruled out header encryption" % pp(noenc[0].vals[0])[:300])
    if secret:
        rule.ok("encrypted", "%d successful paths through an AES chain" % secret)
    if plain:
        rule.ok("clear", "%d paths with encryption off or no AES method" % plain)
    rule.floor("encrypted", 1)
    rule.floor("clear", 1)
    # the flag
    for fn, want in (("new", lambda p, v: p.entails(v)), ("set_encrypt_header", None)):
        k = w.W + fn
        if k not in P.bodies:
            rule.bad("missing:" + fn, k, "function not found")
            continue
        e = flow.Engine(P)
        qs = e.run(k)
        rule.ran(e, qs, k)
        for p in qs:
            if p.kind != "return":
                continue
            if fn == "new":
                if p.variant_of(p.ret) == "Ok":
                    v = field(field(vfield(p.ret, "Ok"), "0"), "encrypt_header")
                    if v is not TRUE:
                        rule.bad("default", k, "header encryption starts as %s" % pp(v))
                    rule.ok("flag", fn)
            else:
                v = p.load(w.SELF, (("f", "encrypt_header"),))
                a = mk("p", P.bodies[k].locals[2][1] or "arg2")
                if v is not a and not (v in (TRUE, FALSE) and p.entails(a if v is TRUE else neg(a))):
                    rule.bad("setter", k, "set_encrypt_header(x) stores %s" % pp(v))
                rule.ok("flag", fn)
    rule.floor("flag", 2)
