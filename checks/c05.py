"""No I/O, codec or format error is swallowed."""
import re
from sa.terms import *
from sa import flow
from sa.prov import *

TECHNIQUE = "error-propagation dataflow over every function (abstract interpretation of MIR)"
RULE = """In every function of both crates, on every path through it: the result of each call that can fail (returns
Result, or Option of Result, other than formatting and conversions) is examined; where it is an error the function
returns an error (or hands the error on as the iterator item), and where it is not examined it is the function's own
result. Loops do not go on after an error. No function that discards errors (Result::ok, unwrap_or, flatten, is_ok and
the like) is passed as a function value. By induction over the call graph a failing operation makes the public operation
fail."""
NOTE = RULE + """ Exempt: the end-of-stream marker of an LZMA stream of unknown length, which the decoder signals as an
error; and the optional time stamps taken from a source file's metadata when an entry is described (from_path,
create_archive_entry), which are best effort and have no error to return."""
LEVEL = "other"
COMB = ("std::ops::try_trait", "std::result::Result", "std::option::Option", "std::fmt::", "std::convert::")
DISCARD = ("::ok", "::is_ok", "::is_err", "::unwrap_or", "::unwrap_or_default", "::unwrap_or_else", "::is_ok_and", "::is_err_and", "::iter", "::into_iter")
META = ("Path::metadata", "Metadata::modified", "Metadata::created", "Metadata::accessed", "fs::metadata", "File::metadata", "Path::symlink_metadata")


def source(c):
    r = c.get("ret") or ""
    return "std::result::Result<" in r and "fn" in c and not c["fn"].startswith(COMB) and "fmt::Error" not in r and not r.startswith("&")


def outcome(p, ev):
    """"Ok" / "Err" / None (not examined) of a fallible call on this path"""
    r = ev.callee.get("ret") or ""
    t = ev.ret
    v = p.variant_of(t)
    if r.startswith("std::option::Option<"):
        if v == "None":
            return "Ok"
        if v is None:
            return None
        return p.variant_of(field(vfield(t, "Some"), "0"))
    if v is None and p.variant_of(mk("x", t)) is not None:
        return None
    return v


def false_fails(c):
    return c.get("res") in FALSE_FAILS or c.get("fn") in FALSE_FAILS


def decided_bool(p, t):
    d = decided(p, t)
    if d is not None:
        return d
    if p.entails(ne0(t)):
        return True
    if p.entails(eq0(t)):
        return False
    return None


def fails(p, ret):
    v = p.variant_of(ret)
    if v == "Err":
        return True
    if v == "Some":
        return p.variant_of(field(vfield(ret, "Some"), "0")) == "Err"
    return False


def check(rule, P):
    nfn = 0
    global FALSE_FAILS
    # functions whose `false` is their error: their callers are held to it as to an Err
    FALSE_FAILS = {k for k, b in P.bodies.items() if "#" not in k and "{closure" not in k and b.locals[0][0] == "bool" and any(source(c) for _, c in P.call_sites(b))}
    for k in sorted(P.bodies):
        if "#" in k:
            continue
        b = P.bodies[k]
        discards(rule, k, b)
        sites = [c for _, c in P.call_sites(b) if source(c) or false_fails(c)]
        if not sites:
            continue
        try:
            if k in FALSE_FAILS:
                raise flow.Limit("judged by its control flow graph")
            e = flow.Engine(P, inline=False, max_paths=3000)
            ps = e.run(k)
        except flow.Limit:
            structural(rule, P, k, b)
            continue
        rule.ran(e, ps, k)
        nfn += 1
        reached = set()
        for p in ps:
            if p.kind == "panic":
                continue
            for ev in p.ev:
                if ev.kind != "call" or ev.ret is None or not isinstance(ev.callee, dict) or not (source(ev.callee) or false_fails(ev.callee)):
                    if not (ev.kind == "call" and ev.name == "callback" and ev.ret is not None and callback_fails(ev)):
                        continue
                judge(rule, P, k, p, ev, reached)
        rule.ok("function", "%s: %d fallible call sites on %d paths" % (k, len(reached), len(ps)))
        for r in reached:
            rule.ok("call-site", r)
    rule.floor("function", 165)
    rule.floor("call-site", 480)


def callback_fails(ev):
    c = ev.callee if isinstance(ev.callee, dict) else {}
    return "Result<" in (c.get("ret") or "") or "Result<" in str(c.get("args") or "")


def judge(rule, P, k, p, ev, reached):
    reached.add("%s@%s:%s" % (k, ev.ctx, ev.bb))
    if isinstance(ev.callee, dict) and not source(ev.callee):
        d = decided_bool(p, ev.ret)
        v = None if d is None else "Ok" if d else "Err"
    else:
        v = outcome(p, ev) if isinstance(ev.callee, dict) else p.variant_of(ev.ret)
    if v == "Ok":
        return
    if v == "Err":
        if p.kind == "return" and fails(p, p.ret):
            return
        if exempt(P, k, p, ev):
            return
        what = "and goes on" if p.kind == "loop" else "and the function returns %s" % pp(p.ret)[:80]
        rule.bad("%s:%s" % (k, ev.name), ev.where, "%s fails here %s" % (ev.name, what))
        return
    # not examined: the result itself must be what the function returns
    if p.kind == "return" and (p.ret is ev.ret or p.ret.op == "a" and variant(p.ret) == "Some" and field(p.ret, "0") is ev.ret):
        return
    if p.kind == "return" and p.ret is not None and fails(p, p.ret):
        return
    if exempt(P, k, p, ev):
        return
    rule.bad("%s:%s" % (k, ev.name), ev.where, "the result of %s is not examined on a path that %s" % (
        ev.name, "goes on" if p.kind == "loop" else "returns %s" % pp(p.ret)[:80]))


def exempt(P, k, p, ev):
    ty = P.bodies[k].locals[0][0]
    if ev.name in META and "Result<" not in ty:
        return True
    if ev.name.endswith("LZMADecoder::decode"):
        for f in p.facts:
            if f.op in ("call", "pure") and f.a[0].endswith("::end_marker_detected"):
                return True
            if f.op in ("eq0",) and any(s.op == "f" and s.a[1] == "reps" for s in subterms(f)):
                return True
    return False


def consts(x):
    if isinstance(x, dict):
        if isinstance(x.get("fn"), str) and "p" not in x:
            yield x
        for y in x.values():
            yield from consts(y)
    elif isinstance(x, (list, tuple)):
        for y in x:
            yield from consts(y)


def discards(rule, k, b):
    """functions that turn an error into something else, used as values (for instance filter_map(Result::ok))"""
    for i, bb in enumerate(b.blocks):
        for st in bb["s"]:
            look(rule, k, b, i, st)
        t = bb["t"]
        if t and t[0] == "call":
            look(rule, k, b, i, t[2:])
            c = t[1] if isinstance(t[1], dict) else {}
            nm = c.get("fn", "")
            g = " ".join(str(x) for x in c.get("args") or ())
            if nm.startswith("std::iter::traits::iterator::Iterator::") and nm.rsplit("::", 1)[-1] in ("flatten", "flat_map", "filter_map", "count", "last", "nth", "find", "any", "all", "position", "filter", "for_each", "map_while", "take_while", "skip_while") and (
                    "fs::ReadDir" in g or "NamesReader" in g or "Result<" in g.split(",")[0] and "Iterator" not in nm):
                rule.bad("%s:%s" % (k, nm.rsplit("::", 1)[-1]), b.line(i), "items of an iterator that reports errors go through Iterator::%s, which ignores them" % nm.rsplit("::", 1)[-1])


def look(rule, k, b, i, x):
    for c in consts(x):
        if c["fn"].startswith("std::result::Result::") and c["fn"].endswith(DISCARD):
            rule.bad("%s:%s" % (k, c["fn"]), b.line(i), "%s is passed as a function value: errors given to it are discarded" % c["fn"])


def structural(rule, P, k, b):
    """a function too large for path analysis: every fallible result goes straight to `?`, to map_err or is returned"""
    uses = {}
    for i, bb in enumerate(b.blocks):
        for st in bb["s"]:
            for l in locals_in(st[2:] if st[0] == "=" else ()):
                uses.setdefault(l, []).append(("stmt", st, i))
        t = bb["t"]
        if t and t[0] == "call":
            for l in locals_in(t[2]):
                uses.setdefault(l, []).append(("call", t, i))
        elif t and t[0] not in ("drop", "goto"):
            for l in locals_in(t[1:]):
                uses.setdefault(l, []).append(("term", t, i))
    n = 0
    for i, bb in enumerate(b.blocks):
        t = bb["t"]
        if not (t and t[0] == "call" and isinstance(t[1], dict) and source(t[1])):
            continue
        n += 1
        d = t[3][0]
        good = d == 0
        for kind, u, j in uses.get(d, ()):
            if kind == "call" and isinstance(u[1], dict) and u[1]["fn"].startswith(("std::ops::try_trait::Try::branch", "std::result::Result::<T, E>::map_err")):
                good = True
            if kind == "stmt" and u[0] == "=" and u[1][0] == 0:
                good = True
            if kind == "stmt" and u[0] == "=" and u[2][0] == "discr" and k in FALSE_FAILS:
                s = b.blocks[j]["t"]
                if s[0] == "switch" and s[2] == [[0, s[2][0][1]]] and returns_false(b, s[3]):
                    good = True
        if not good:
            rule.bad("%s:%s" % (k, t[1]["fn"]), b.line(i), "the result of %s is neither propagated nor returned" % t[1]["fn"])
        else:
            rule.ok("call-site", "%s bb%d (structural)" % (k, i))
    rule.ok("function", "%s: %d fallible call sites (structural)" % (k, n))


def returns_false(b, j):
    """control runs from block j straight to the return of the constant false"""
    done = False
    for _ in range(20):
        bb = b.blocks[j]
        for st in bb["s"]:
            if st[0] == "=" and st[1] == [0, []]:
                done = st[2][0] == "use" and const_false(st[2][1])
        t = bb["t"]
        if t[0] == "return":
            return done
        if t[0] == "goto":
            j = t[1]
        elif t[0] == "drop":
            j = t[2]
        else:
            return False
    return False


def const_false(o):
    return isinstance(o, dict) and "p" not in o and (o.get("v") in (0, False, "false", "0") or o.get("int") in (0, "0"))


def locals_in(x):
    if isinstance(x, dict):
        if "p" in x:
            yield x["p"][0]
        for y in x.values():
            yield from locals_in(y)
    elif isinstance(x, (list, tuple)):
        if len(x) >= 2 and x[0] in ("discr", "ref", "addr", "len") and isinstance(x[1], list) and x[1] and isinstance(x[1][0], int):
            yield x[1][0]
        for y in x:
            yield from locals_in(y)
