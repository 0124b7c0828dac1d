"""The decoder's dictionary: distances, positions and raw copies."""
from sa.terms import *
from sa import flow
from sa.prov import *
from sa.evalt import value, holds, element
from sa.steps import System, Stuck, place
from sa.arith import entails
from checks.c34 import find, last, at

TECHNIQUE = "evaluation of extracted transition systems over finite domains, guard analysis of raw copies (abstract interpretation of MIR)"
RULE = """Dictionary: the transition systems of LZDecoder's operations are extracted (path summaries, one per way round each loop) and
followed for every state of windows of up to five bytes (fresh, partly filled, wrapped, with every position and limit), every distance
up to twice the window and every length up to the window and beyond, against a cyclic buffer that keeps the last bytes written: a
reference to a distance that is not smaller than the bytes in the window is an error that leaves window, position and fill as they
were; any other one appends exactly the bytes at that distance, up to the limit, keeps the rest and its distance as pending, and
pending copies are continued in the same way; nothing else in the window changes; position, limit and fill stay within the window.
Putting, reading back, limiting, resetting, presetting, filling from stored data and flushing follow the same buffer. Raw copies:
wherever the library copies through raw pointers or indexes without a check, both ranges are known to lie inside their buffers on every path (linear facts of the
path, or, for the dictionary, the evaluation above, in which each copy's ranges are checked)."""
NOTE = RULE + """ The arithmetic of the operations consists of comparisons, sums and minima of these quantities, so that a small window shows every
case; that larger windows behave alike is an assumption. What is asked of the dictionary by the decoder is C17."""
LEVEL = "other"
O = "lz::lz_decoder::LZDecoder"
FIELDS = ("buf_size", "start", "pos", "full", "limit", "pending_len", "pending_dist")
UNSAFE = ("ptr::copy", "ptr::copy_nonoverlapping", "ptr::write", "ptr::read", "ptr::swap", "ptr::write_bytes", "get_unchecked", "get_unchecked_mut", "set_len",
          "from_raw_parts", "from_raw_parts_mut", "copy_to", "copy_from", "copy_to_nonoverlapping", "copy_from_nonoverlapping", "ptr::replace", "unreachable_unchecked",
          "transmute", "read_unaligned", "write_unaligned")


def check(rule, P):
    done = set()
    for f in (repeating, pending, bytes_, limits, starting, stored, flushing):
        try:
            f(rule, P, done)
        except Stuck as e:
            rule.bad("undecided:" + f.__name__, "lzma-rust/src/lz/lz_decoder.rs", "%s: %s" % (f.__name__, e))
    raw(rule, P, done)
    rule.floor("repeat", 10)
    rule.floor("operation", 6)


class Win:
    """a dictionary of n bytes after the given history; at: position n is not yet wrapped to 0"""

    def __init__(self, n, total, full_end=False):
        self.n, self.total = n, total
        self.buf = [0] * n
        for i in range(total):
            self.buf[i % n] = 10 + i
        self.pos = n if full_end else total % n
        self.full = min(total, n)

    def back(self, dist):
        """the byte at a distance"""
        i = self.pos - dist - 1
        return self.buf[i if i >= 0 else i + self.n]


def states():
    for n in (1, 2, 3, 5):
        for total in range(0, 2 * n + 1):
            yield Win(n, total)
            if total and total % n == 0:
                yield Win(n, total, True)


def env_of(S, w, **kw):
    me = mk("d", mk("p", S.param(0)))
    env = {field(me, "buf_size"): w.n, field(me, "pos"): w.pos, field(me, "full"): w.full, field(me, "start"): min(w.pos, 1), field(me, "limit"): w.n,
           field(me, "pending_len"): 0, field(me, "pending_dist"): 0, length(field(me, "buf")): w.n}
    for i in range(w.n):
        env[elem(field(me, "buf"), C(i))] = w.buf[i]
    for k, v in kw.items():
        env[field(me, k)] = v
    return env


def after(S, p, env, n):
    root = mk("D", mk("p", S.param(0)))
    b = p.load(root, (("f", "buf"),))
    out = {f: value(p.load(root, (("f", f),)), env) for f in FIELDS}
    out["buf"] = [element(b, i, env) for i in range(n)]
    return out


class Copies:
    """each raw copy of the dictionary stays inside it"""

    def __init__(self, n):
        self.n, self.bad = n, None

    def __call__(self, e, env):
        if last(e) == "copy" and e.name.startswith("ptr::"):
            k = value(e.vals[2], env)
            for a, v in zip(e.args[:2], e.vals[:2]):
                off = offset(a, env)
                if off is None or k is None:
                    self.bad = self.bad or "copies a range that could not be determined"
                elif off < 0 or off + k > self.n:
                    self.bad = self.bad or "copies bytes %d..%d of a window of %d" % (off, off + k, self.n)
        return None


def offset(a, env):
    off = 0
    for x in a.a[2]:
        if x[0] in ("off", "sl"):
            v = value(x[1], env)
            if v is None:
                return None
            off += v
    return off


def outcome(p):
    if p.kind != "return":
        return p.kind
    v = p.variant_of(p.ret) or variant(p.ret)
    return v


def repeated(w, limit, dist, ln):
    n = min(limit - w.pos, ln)
    b = list(w.buf)
    for i in range(n):
        j = w.pos + i - dist - 1
        b[w.pos + i] = b[j if j >= 0 else j + w.n]
    pos = w.pos + n
    return {"buf": b, "pos": pos, "full": max(w.full, pos), "pending_len": ln - n, "pending_dist": dist}


def judge(rule, P, key, p, S, env, w, cp, limit, dist, ln, start, what):
    """message, or None when the outcome of copying from a distance is right"""
    got = after(S, p, env, w.n)
    if cp.bad:
        return cp.bad
    keep = {"buf": w.buf, "pos": w.pos, "full": w.full, "limit": limit, "start": start, "buf_size": w.n}
    if dist >= w.full:
        if outcome(p) != "Err":
            return "%s, although only %d bytes are there" % ("panics" if p.kind != "return" else "is accepted", w.full)
        for k, v in keep.items():
            if got[k] != v:
                return "is refused, but leaves %s = %s instead of %s" % (k, got[k], v)
        return None
    if outcome(p) != "Ok":
        return "is refused, although %d bytes are there" % w.full if p.kind == "return" else "panics"
    want = dict(keep)
    want.update(repeated(w, limit, dist, ln))
    for k, v in want.items():
        if k == "pending_dist" and not want["pending_len"]:
            continue
        if got[k] != v:
            return "leaves %s = %s instead of %s" % (k, got[k], v)
    return None


def repeating(rule, P, done):
    key = find(rule, P, O, "repeat")
    if key is None:
        return
    S = System(P, key, (), rule)
    for w in states():
        if w.pos >= w.n:
            continue
        for limit in sorted({w.pos + 1, w.n}):
            for dist in range(0, 2 * w.n + 1):
                for ln in range(1, w.n + 3):
                    env = env_of(S, w, limit=limit)
                    env[mk("p", S.param(1))] = dist
                    env[mk("p", S.param(2))] = ln
                    cp = Copies(w.n)
                    p, env = S.run(env, cp)
                    msg = judge(rule, P, key, p, S, env, w, cp, limit, dist, ln, min(w.pos, 1), "")
                    if msg:
                        rule.bad("repeat", at(P, key), "a reference to distance %d, length %d, in a window of %d holding %d bytes, at %d, limit %d, %s" % (dist + 1, ln, w.n, w.full, w.pos, limit, msg))
                        return
        rule.ok("repeat", "window %d, %d bytes, position %d" % (w.n, w.full, w.pos))
    done.add(key)


def pending(rule, P, done):
    key = find(rule, P, O, "repeat_pending")
    if key is None:
        return
    S = System(P, key, (), rule)
    for w in states():
        if w.pos >= w.n:
            continue
        for dist in range(0, w.full):
            for ln in (0, 1, 2, w.n + 1):
                for limit in sorted({w.pos + 1, w.n}):
                    cp = Copies(w.n)
                    p, env = S.run(env_of(S, w, limit=limit, pending_len=ln, pending_dist=dist), cp)
                    if ln:
                        msg = judge(rule, P, key, p, S, env, w, cp, limit, dist, ln, min(w.pos, 1), "")
                    else:
                        got = after(S, p, env, w.n)
                        msg = None if outcome(p) == "Ok" and got["buf"] == w.buf and got["pos"] == w.pos and got["pending_len"] == 0 else "changes the window with nothing pending"
                    if msg:
                        rule.bad("pending", at(P, key), "%d bytes pending at distance %d in a window of %d holding %d, at %d: %s" % (ln, dist + 1, w.n, w.full, w.pos, msg))
                        return
    rule.ok("operation", "pending")
    for name, f in (("has_pending", lambda w, l, q: int(q > 0)), ("has_space", lambda w, l, q: int(w.pos < l)), ("get_pos", lambda w, l, q: w.pos)):
        k = find(rule, P, O, name)
        if k is None:
            continue
        S = System(P, k, (), rule)
        for w in states():
            for l in range(w.pos, w.n + 1):
                for q in (0, 1, 7):
                    p, env = S.run(env_of(S, w, limit=l, pending_len=q), lambda e, env: None)
                    v = value(p.ret, env) if p.kind == "return" else None
                    if v is None and p.kind == "return":
                        h = holds(p.ret, env)
                        v = None if h is None else int(h)
                    if v != f(w, l, q):
                        rule.bad("query:" + name, at(P, k), "%s is %s at position %d, limit %d, with %d pending" % (name, v, w.pos, l, q))
                        return
        rule.ok("operation", name)


def bytes_(rule, P, done):
    key = find(rule, P, O, "put_byte")
    if key is not None:
        S = System(P, key, (), rule)
        for w in states():
            if w.pos >= w.n:
                continue
            env = env_of(S, w)
            env[mk("p", S.param(1))] = 99
            p, env = S.run(env, lambda e, env: None)
            got = after(S, p, env, w.n)
            b = list(w.buf)
            b[w.pos] = 99
            if p.kind != "return" or (got["buf"], got["pos"], got["full"]) != (b, w.pos + 1, max(w.full, w.pos + 1)):
                rule.bad("put", at(P, key), "putting a byte at %d of %d leaves %s" % (w.pos, w.n, got))
                return
        rule.ok("operation", "put")
    key = find(rule, P, O, "get_byte")
    if key is not None:
        S = System(P, key, (), rule)
        for w in states():
            for d in range(w.full):
                env = env_of(S, w)
                env[mk("p", S.param(1))] = d
                p, env = S.run(env, lambda e, env: None)
                v = value(p.ret, env) if p.kind == "return" else None
                if v != w.back(d):
                    rule.bad("get", at(P, key), "the byte at distance %d in a window of %d holding %d, at %d, is %s, not %s" % (d + 1, w.n, w.full, w.pos, v, w.back(d)))
                    return
        rule.ok("operation", "get")


def limits(rule, P, done):
    key = find(rule, P, O, "set_limit")
    if key is None:
        return
    S = System(P, key, (), rule)
    for w in states():
        for m in range(0, 2 * w.n + 2):
            env = env_of(S, w, limit=0)
            env[mk("p", S.param(1))] = m
            p, env = S.run(env, lambda e, env: None)
            got = after(S, p, env, w.n)
            if p.kind != "return" or got["limit"] != min(w.pos + m, w.n) or got["pos"] != w.pos or got["full"] != w.full:
                rule.bad("limit", at(P, key), "asked for %d bytes at %d of %d, the limit is %s" % (m, w.pos, w.n, got["limit"]))
                return
    rule.ok("operation", "limit")


def starting(rule, P, done):
    key = find(rule, P, O, "reset")
    if key is not None:
        S = System(P, key, (), rule)
        for w in states():
            p, env = S.run(env_of(S, w), lambda e, env: None)
            got = after(S, p, env, w.n)
            if p.kind != "return" or any(got[k] != 0 for k in ("pos", "full", "start")):
                rule.bad("reset", at(P, key), "a reset dictionary still holds %s bytes at %s" % (got["full"], got["pos"]))
                return
        rule.ok("operation", "reset")
    key = find(rule, P, O, "new")
    if key is None:
        return
    S = System(P, key, (), rule)
    ds, pre = mk("p", S.param(0)), mk("p", S.param(1))
    data = mk("d", field(vfield(pre, "Some"), "0"))
    for n in (1, 2, 5):
        for k in (None, 0, 1, 3, 5, 6, 9):
            env = {ds: n, mk("variant", pre): "None" if k is None else "Some", length(data): k or 0}
            for i in range(k or 0):
                env[elem(data, C(i))] = 50 + i
            p, env = S.run(env, lambda e, env: None)
            m = min(k or 0, n)
            b = field(p.ret, "buf")
            got = {f: value(field(p.ret, f), env) for f in ("buf_size", "pos", "full", "start", "pending_len")}
            want = {"buf_size": n, "pos": m, "full": m, "start": m, "pending_len": 0}
            c = [element(b, i, env) for i in range(m)]
            if p.kind != "return" or got != want or c != [50 + (k or 0) - m + i for i in range(m)] or value(length(b), env) != n:
                rule.bad("new", at(P, key), "a dictionary of %d with %s preset bytes starts as %s, %s" % (n, k, got, c))
                return
    rule.ok("operation", "new")


def stored(rule, P, done):
    key = find(rule, P, O, "copy_uncompressed")
    if key is None:
        return
    S = System(P, key, (), rule)
    for w in states():
        for ln in range(0, 2 * w.n + 1):
            for fail in (0, 1):
                env = env_of(S, w, limit=(w.n, w.pos, 0)[(ln + fail) % 3])
                env[mk("p", S.param(2))] = ln
                tr = []

                def oracle(e, env):
                    if last(e) in ("read_exact", "read"):
                        tr.append((place(e.args[1], env), value(length(e.vals[1]), env)))
                        env[mk("variant", e.ret)] = "Err" if fail else "Ok"
                    return None
                p, env = S.run(env, oracle)
                k = min(w.n - w.pos, ln)
                root = mk("D", mk("p", S.param(0)))
                pos, full = [value(p.load(root, (("f", x),)), env) for x in ("pos", "full")]
                got = [(x[0][1:], x[1]) for x in tr if x[0] and x[1]]
                want = [(("buf", (w.pos, w.pos + k)), k)] if k else []
                if p.kind != "return" or got != want:
                    rule.bad("stored", at(P, key), "%d stored bytes at %d of %d are read to %s" % (ln, w.pos, w.n, tr))
                    return
                if not fail and (pos, full) != (w.pos + k, max(w.full, w.pos + k)):
                    rule.bad("stored", at(P, key), "%d stored bytes at %d of %d leave the position at %s and %s bytes" % (k, w.pos, w.n, pos, full))
                    return
                if fail and tr and (outcome(p) == "Ok" or full != w.full):
                    rule.bad("stored", at(P, key), "stored bytes that could not be read count as decoded")
                    return
    rule.ok("operation", "stored")


def flushing(rule, P, done):
    key = find(rule, P, O, "flush")
    if key is None:
        return
    S = System(P, key, (), rule)
    out = mk("d", mk("p", S.param(1)))
    root = mk("D", mk("p", S.param(1)))
    for w in states():
        for start in range(0, w.pos + 1):
            for off in (0, 2):
                env = env_of(S, w, start=start)
                n = w.pos - start
                m = off + n + 1
                env[mk("p", S.param(2))] = off
                env[length(out)] = m
                for i in range(m):
                    env[elem(out, C(i))] = 200 + i
                p, env = S.run(env, lambda e, env: None)
                got = after(S, p, env, w.n)
                o = [element(p.load(root, ()), i, env) for i in range(m)]
                q = 0 if w.pos == w.n else w.pos
                msg = None
                if p.kind != "return" or value(p.ret, env) != n:
                    msg = "hands on %s bytes" % (value(p.ret, env) if p.kind == "return" else "no")
                elif o != [200 + i for i in range(off)] + w.buf[start:w.pos] + [200 + off + n]:
                    msg = "hands on other bytes (%s)" % o
                elif (got["pos"], got["start"], got["full"], got["buf"]) != (q, q, w.full, w.buf):
                    msg = "leaves %s" % got
                if msg:
                    rule.bad("flush", at(P, key), "flushing %d..%d of %d %s" % (start, w.pos, w.n, msg))
                    return
    rule.ok("operation", "flush")


# ---- raw copies --------------------------------------------------------------

def raw(rule, P, done):
    users = {}
    for k, b in P.bodies.items():
        for bl in b.blocks:
            t = bl["t"]
            if t and t[0] == "call" and isinstance(t[1], dict):
                n = t[1].get("fn", "")
                if any(n.endswith("::" + u) or n == u for u in UNSAFE) and t[1].get("unsafe"):
                    users.setdefault(k, set()).add(n)
    for k, ns in sorted(users.items()):
        if k in done:
            rule.ok("raw", "%s (evaluated)" % k)
            continue
        bad = prove(rule, P, k, users, done, ())
        for where, text in bad[:3]:
            rule.bad("raw:" + k, where, text)
        if not bad:
            rule.ok("raw", k)


def local(P, k):
    """functions of the library that k calls"""
    return {c for c in P.bodies if k in P.callers().get(c, ())}


def prove(rule, P, k, users, done, inlined):
    """what could not be shown of the raw accesses reached from k: by k alone, with its small callees, or in all its callers"""
    ours = {x for x in P.bodies if "#" not in x and x != k}
    small = {x for x in local(P, k) if len(P.bodies[x].blocks) < 40 and "#" not in x}
    bad = None
    for open_ in (set(inlined), set(inlined) | small):
        if bad is not None and open_ == set(inlined):
            continue
        now = once(rule, P, k, ours - open_, users)
        bad = now if bad is None else now
        if not bad:
            return []
    cs = {c.split("#")[0] for c in P.callers().get(k, ())} - {k}
    if not cs or len(inlined) > 2 or public_fn(P, k):
        return bad
    for c in sorted(cs):
        if c in done:
            continue
        if prove(rule, P, c, users, done, tuple(inlined) + (k,)):
            return bad
    return []


def public_fn(P, k):
    return bool(P.items[k].get("pub"))


def once(rule, P, k, opaque, users):
    e = flow.Engine(P, opaque=opaque, max_paths=20000)
    try:
        ps = e.run(k)
    except flow.Limit as x:
        return [(at(P, k), "too many paths to decide the raw accesses")]
    rule.ran(e, ps, k)
    n, bad = 0, []
    for p in ps:
        for x in p.ev:
            if x.kind != "call":
                continue
            if x.name == "ptr::copy":
                n += 1
                m = inside(P, p, x)
                if m:
                    bad.append((x.where, m))
            elif x.callee and x.callee.get("unsafe") and any(x.name.split("::")[-1] == u.split("::")[-1] for u in UNSAFE):
                n += 1
                if not (x.name.split("::")[-1].startswith("get_unchecked") and within(p, x, x.vals[1], ONE, length(x.vals[0]))):
                    bad.append((x.where, "%s is used without a check that decides it is safe" % x.name))
    if not n:
        bad.append((at(P, k), "the raw accesses are never reached by the analysis"))
    return bad


def within(p, x, off, n, ln):
    fs = list(p.facts[:x.nf])
    return entails(fs, le(add(off, n), ln)) and entails(fs, ge0(off)) and entails(fs, ge0(n))


def inside(P, p, x):
    n = x.vals[2]
    for a, v, w in zip(x.args[:2], x.vals[:2], ("source", "destination")):
        off = ZERO
        for y in a.a[2]:
            if y[0] in ("off", "sl"):
                off = add(off, y[1])
        ln = arraylen(P, a, v)
        if not within(p, x, off, n, ln):
            return "the %s of a raw copy (%s elements from %s on) is not known to end inside its buffer of %s" % (w, pp(n)[:60], pp(off)[:60], pp(ln)[:60])
    return None


def arraylen(P, a, v):
    ln = length(v)
    if ln.op == "c":
        return ln
    names = [x[1] for x in a.a[2] if x[0] == "f"]
    for ad in P.adts.values():
        for va in ad["variants"]:
            for f in va["fields"]:
                if names and f["name"] == names[-1] and f["ty"].startswith("[") and ";" in f["ty"]:
                    x = f["ty"][1:-1].rsplit(";", 1)[1].strip()
                    c = int(x) if x.isdigit() else next((q for kk, q in P.consts.items() if kk.split("::")[-1] == x.split("::")[-1] and isinstance(q, int)), None)
                    if c is not None:
                        return C(c)
    return ln
