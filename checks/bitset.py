"""The bit vectors of the header, on both sides: eight to a byte, the first in the highest bit, the last byte always present."""
from sa.terms import *
from sa import flow
from sa.evalt import value, element
from sa.steps import System, Stuck, went_well
from checks.c34 import last, at
from checks.c17 import sink
from checks.c20 import feed

LENGTHS = tuple(range(0, 18)) + (24, 25, 33, 65, 131, 517)


def vectors(n):
    out = [[0] * n, [1] * n]
    if n:
        out += [[int(i == k) for i in range(n)] for k in sorted({0, n - 1, n // 2, max(0, n - 8), max(0, n - 9)})]
        out += [[(i * i + i // 3) & 1 for i in range(n)], [(i + 1) % 2 for i in range(n)]]
    return out


def packed(v):
    return [sum(b << (7 - j) for j, b in enumerate(v[i:i + 8])) for i in range(0, len(v), 8)]


def show(v):
    return "".join(map(str, v)) or "(empty)"


def check(rule, P):
    for n, f in (("write_bit_set", writing), ("read_bits", reading), ("read_all_or_bits", all_or)):
        ks = [k for k in P.bodies if k.startswith("sevenz_rust::") and k.split("::")[-1] == n and "#" not in k and "{" not in k]
        if len(ks) != 1:
            rule.bad("missing:" + n, "src", "the bit vector coder %s was not found" % n)
            continue
        try:
            f(rule, P, ks[0])
        except (Stuck, flow.Limit) as e:
            rule.bad("undecided:" + n, at(P, ks[0]), "%s: %s" % (n, e))
    rule.floor("bit-vectors", 300)


def writing(rule, P, key):
    S = System(P, key, (), rule)
    for n in LENGTHS:
        for v in vectors(n):
            out = []
            emit = sink(out)

            def oracle(e, env):
                m = last(e)
                if m == "len":          # of a set: how many bits are set
                    return sum(v) if "BitSet" in e.name else n
                if m == "is_empty":
                    return int(not any(v)) if "BitSet" in e.name else int(n == 0)
                if m == "contains" or m == "get" and "BitVec" in e.name:
                    i = value(e.vals[1], env)
                    if i is None:
                        raise Stuck("which bit is asked for is not determined")
                    b = v[i] if 0 <= i < n else 0
                    if m == "get":
                        env[mk("variant", e.ret)] = "Some" if 0 <= i < n else "None"
                        env[field(vfield(e.ret, "Some"), "0")] = b
                        return None
                    return b
                if m == "to_bytes":
                    w = packed(v)
                    env[length(e.ret)] = len(w)
                    for i, x in enumerate(w):
                        env[elem(e.ret, C(i))] = x
                    return None
                return emit(e, env)

            def bit(t, env):
                if t.a[0].endswith("::contains"):
                    i = value(t.a[2], env)
                    return None if i is None else v[i] if 0 <= i < n else 0
            p, env = S.run({"pure": bit}, oracle)
            if p.kind != "return" or not went_well(p, env):
                rule.bad("write_bit_set", at(P, key), "the bits %s cannot be written (%s)" % (show(v), p.kind))
                return
            if None in out:
                raise Stuck("the bytes for %s are not determined" % show(v))
            if [x & 255 for x in out] != packed(v):
                rule.bad("write_bit_set", at(P, key), "the %d bits %s are written as [%s], not [%s]" % (n, show(v), bytes(x & 255 for x in out).hex(), bytes(packed(v)).hex()))
                return
            rule.ok("bit-vectors", "write %s" % show(v))


def collect(S, key, v, data, n, rule, P, name):
    """reads v from data with the function"""
    used, got = [0], set()
    take = feed(S, data, used)

    def oracle(e, env):
        if last(e) == "insert" or last(e) == "set" and "BitVec" in e.name:
            i = value(e.vals[1], env)
            b = value(e.vals[2], env) if len(e.vals) > 2 else 1
            if i is None or b is None:
                raise Stuck("which bit is set is not determined")
            (got.add if b else got.discard)(i)
            return 1
        if last(e) in ("extend", "collect", "from_iter"):     # of a range of positions
            t = e.vals[-1]
            lo, hi = (t.a[1], t.a[2]) if t.op == "it" and t.a[0] == "range" else (field(t, "start"), field(t, "end"))
            lo, hi = value(lo, env), value(hi, env)
            if lo is None or hi is None:
                raise Stuck("which bits are set is not determined")
            got.update(range(lo, hi))
            return None
        if last(e) == "from_bytes":
            k = value(length(e.vals[0]), env)
            if k is None:
                raise Stuck("the bytes a bit vector is made of are not determined")
            for i in range(8 * k):
                x = element(e.vals[0], i // 8, env)
                if x is None:
                    raise Stuck("the bytes a bit vector is made of are not determined")
                if x >> (7 - i % 8) & 1:
                    got.add(i)
            return None
        return take(e, env)
    p, env = S.run({mk("p", S.param(1)): n}, oracle)
    if p.kind != "return" or not went_well(p, env):
        rule.bad(name, at(P, key), "the %d bits [%s] are not accepted (%s)" % (n, bytes(data).hex(), p.kind))
        return False
    if used[0] != len(data) or {i for i in got if i < n} != {i for i in range(n) if v[i]} or any(i >= 8 * ((n + 7) // 8) for i in got):
        rule.bad(name, at(P, key), "[%s] stands for the %d bits %s but is read as %s from %d bytes" % (
            bytes(data).hex(), n, show(v), show([int(i in got) for i in range(n)]), used[0]))
        return False
    rule.ok("bit-vectors", "%s %s" % (name, show(v)))
    return True


def reading(rule, P, key):
    S = System(P, key, (), rule)
    for n in LENGTHS:
        for v in vectors(n):
            if not collect(S, key, v, packed(v), n, rule, P, "read_bits"):
                return


def all_or(rule, P, key):
    S = System(P, key, (), rule)
    for n in LENGTHS:
        for v, d in [(v, [0] + packed(v)) for v in vectors(n)] + [([1] * n, [1])]:
            if not collect(S, key, v, d, n, rule, P, "read_all_or_bits"):
                return
