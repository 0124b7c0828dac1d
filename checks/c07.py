"""Extraction never writes outside the destination directory."""
from sa.terms import *
from sa import flow, mir
from sa.prov import *

TECHNIQUE = "taint analysis of entry names through path operations to file-system effects (abstract interpretation of MIR)"
RULE = """On every path of every closure and function of the library that hands a path to an extraction callback or
performs a file-system effect (create, write, open for writing, remove, rename, set permissions or times by path): the
path is the caller's destination, extended only by parts that cannot leave it - an entry name all of whose components
have been found to be ordinary names (or `.`) before it is joined, components that are ordinary names, or constants
without `..`; or it is a path argument of the function itself or (for creating directories) its parent. The destination a
closure captures is the function's own destination argument. An entry name never reaches a path join in any other way.
The library never creates symbolic or hard links, so what it created earlier cannot redirect a later entry."""
NOTE = RULE + """ Links that already exist inside the destination are the caller's; entry names are judged by
std::path::Path::components of the platform the library is built for."""
LEVEL = "other"
CONV = ("From::from", "Into::into", "Path::to_path_buf", "ToOwned::to_owned", "Clone::clone", "AsRef::as_ref", "PathBuf::as_path", "Path::new", "Component::as_os_str",
        "Deref::deref", "Borrow::borrow", "ToString::to_string", "OsStr::to_os_string", "Path::as_os_str", "String::as_str", "str::to_string", "PathBuf::from", "Cow::into_owned", "OsStr::to_string_lossy", "Path::to_string_lossy", "AsRef<Path>::as_ref")
EFFECTS = ("File::create", "File::create_new", "fs::create_dir_all", "fs::create_dir", "fs::write", "fs::remove_file", "fs::remove_dir", "fs::remove_dir_all", "fs::rename",
           "fs::copy", "fs::set_permissions", "OpenOptions::open", "DirBuilder::create")
LINKS = ("symlink", "hard_link", "soft_link", "symlink_file", "symlink_dir")
JOINS = ("Path::join", "PathBuf::push", "Path::with_file_name", "PathBuf::set_file_name", "Path::with_extension")
UP = {"ParentDir", "RootDir", "Prefix"}


def effect(c):
    f = c.get("fn", "")
    if f.startswith(("std::fs::", "std::os::", "filetime", "filetime_creation")) or "OpenOptions" in f or "symlink" in f:
        return short(c) in EFFECTS or f.rsplit("::", 1)[-1] in LINKS or f.startswith("filetime") and not f.endswith("set_file_handle_times") and "::set_" in f
    return False


def takes_path(c):
    g = " ".join(str(x) for x in c.get("args") or ())
    return "path::Path" in g and "SevenZArchiveEntry" in g and c.get("trait", "").startswith("std::ops::function::")


def check(rule, P):
    callers = P.callers()
    fr = set()
    for k in sorted(P.bodies):
        if "#p" in k:
            continue
        b = P.bodies[k]
        if any(sink(c) for _, c in P.call_sites(b)):
            fr |= roots(P, callers, k)
    seen = set()
    for k in sorted(fr):
        e = flow.Engine(P, inline_filter=lambda x: relevant(P, x))
        ps = e.run(k)
        rule.ran(e, ps, k)
        for p in ps:
            for ev in p.ev:
                if ev.kind == "call" and isinstance(ev.callee, dict):
                    judge(rule, P, k, ps, p, ev, seen)
    rule.floor("callback-path", 1)
    rule.floor("destination", 1)
    rule.floor("effect", 5)
    rule.floor("join", 1)


def sink(c):
    return effect(c) or takes_path(c) or short(c).endswith(JOINS)


RELEVANT = {}


def relevant(P, k):
    """functions that handle paths or names, or reach one that performs an effect"""
    if not RELEVANT:
        work = [k for k, b in P.bodies.items() if any(sink(c) for _, c in P.call_sites(b))]
        cs = P.callers()
        seen = set(work)
        while work:
            for c in cs.get(work.pop(), ()):
                if c not in seen:
                    seen.add(c)
                    work.append(c)
        for k2, b in P.bodies.items():
            sig = " ".join(l[0] for l in b.locals[:b.argc + 1])
            RELEVANT[k2] = k2 in seen or "{closure" in k2 or len(b.blocks) <= 40 and ("path::" in sig or "str" in sig or "SevenZArchiveEntry" in sig) and "SevenZWriter" not in sig
    return RELEVANT.get(k, False)


def short(c):
    return "::".join(c.get("fn", "").split("::")[-2:])


def roots(P, callers, k, seen=None):
    """functions from which k is analysed (k inlined into them): k itself when it is public, a closure or never called"""
    seen = seen or set()
    if k in seen:
        return {k}
    cs = [c for c in callers.get(k, ()) if c != k]
    if not cs or "{closure" in k.rsplit("::", 1)[-1] or str(P.bodies[k].item.get("pub")).lower() == "true":
        return {k}
    out = set()
    for c in cs:
        out |= roots(P, callers, c if isinstance(c, str) else c[0], seen | {k})
    return out


def judge(rule, P, k, ps, p, ev, seen):
    if ev.name == "callback" and takes_path(ev.callee):
        tys = mir.split_args(ev.callee["args"][-1].strip("()")) if len(ev.callee["args"]) > 1 else []
        for i, ty in enumerate(tys):
            if "path::Path" in ty:
                t = ev.vals[1 + i]
                why = under(ps, p, t, frozenset())
                rule_at(rule, seen, "callback-path", "%s: %s" % (k, pp(plain(t))[:100]), why, k, ev, "the callback is given the path %s: %s")
                if why is None:
                    capture(rule, P, k, t, ev)
    elif effect(ev.callee):
        if ev.callee["fn"].rsplit("::", 1)[-1] in LINKS:
            rule.bad("%s:%s" % (k, ev.name), ev.where, "%s creates a link: a later entry can be written through it" % ev.name)
            return
        vs = ev.vals[:2 if ev.name.endswith(("rename", "copy")) else 1]
        if "OpenOptions" in ev.callee["fn"] or "DirBuilder" in ev.callee["fn"]:
            vs = ev.vals[1:2]
        for t in vs:
            if "create_dir" in ev.name:
                t = above(t)
            why = under(ps, p, t, frozenset())
            rule_at(rule, seen, "effect", "%s: %s" % (k, ev.name), why, k, ev, ev.name + " acts on %s: %s")
    elif ev.name in JOINS:
        if len(ev.vals) > 1 and tainted(ev.vals[1]):
            why = clean(ps, p, ev.vals[1])
            rule_at(rule, seen, "join", "%s: %s" % (k, pp(plain(ev.vals[1]))[:80]), why, k, ev, "an entry name is joined to a path (%s): %s")


def rule_at(rule, seen, kind, inst, why, k, ev, text):
    if why is None:
        if (kind, inst) not in seen:
            seen.add((kind, inst))
            rule.ok(kind, inst)
    else:
        i = 1 if ev.name in JOINS else 0
        t = ev.vals[-1] if ev.name == "callback" else ev.vals[i]
        rule.bad("%s:%s" % (k, ev.name), ev.where, text % (pp(plain(t))[:100], why))


def plain(t):
    while True:
        if t.op in ("call", "pure") and cname(t) in CONV and cvals(t):
            t = cvals(t)[0]
        elif t.op == "d" and t.a[0].op == "derefd" and t.a[0].a[0].op != "r":
            t = t.a[0].a[0]
        elif t.op == "v" and t.a[1] in ("Normal", "Some", "Ok") or t.op == "f" and t.a[1] == "0" and t.a[0].op == "v":
            n = t.a[0] if t.op == "v" else t.a[0]
            if t.op == "f" and n.a[1] in ("Some", "Ok") and n.a[0].op in ("call", "pure") and cname(n.a[0]) in ("Path::to_str", "OsStr::to_str", "str::from_utf8"):
                t = cvals(n.a[0])[0]
            else:
                return t
        else:
            return t


def above(t):
    """create_dir_all may also be given the parent of a path"""
    x = plain(t)
    if x.op == "d":
        x = plain(x.a[0])
    if x.op == "f" and x.a[0].op == "v" and x.a[0].a[1] == "Some":
        c = x.a[0].a[0]
        if cname(c) == "Path::parent":
            return cvals(c)[0]
    return t


def tainted(t):
    return any(s.op == "f" and s.a[1] == "name" for s in subterms(t))


def component(t):
    """the element of `components()` that t is, or None"""
    t = plain(t)
    if t.op == "f" and t.a[1] == "0" and t.a[0].op == "v" and t.a[0].a[1] == "Normal":
        t = t.a[0].a[0]
    if t.op == "e" and cname(t.a[0]) == "components":
        return t
    return None


def ordinary(p, c):
    v = p.variant_of(c)
    return v in ("Normal", "CurDir") or v is None and UP <= set(p.nd.get(c, ()))


def clean(ps, p, t):
    """None when joining t cannot leave the directory it is joined to, else the reason"""
    t = plain(t)
    x = t
    if x.op == "f" and x.a[1] == "0" and x.a[0].op == "v" and x.a[0].a[1] == "Normal":
        return None
    c = component(t)
    if c is not None:
        return None if ordinary(p, c) else "a component that may be `..` or a root is added"
    for e, content, its in scans(ps, p):
        if cname(content) == "components" and plain(cvals(content)[0]) is t:
            if all(ordinary(q, i) for q, i in its):
                return None
            return "its components are examined, but one that is `..` or a root gets through"
    if cname(t) in ("Iterator::collect", "FromIterator::from_iter"):
        i = cvals(t)[0]
        if i.op == "it" and i.a[0] == "filter" and filters(ps, i):
            return None
    if t.op in ("b", "bytes") or t.op == "s":
        s = str(t.a[0])
        return None if ".." not in s and not s.strip("b'\"").startswith("/") else "a constant that leaves the directory"
    if cname(t) in JOINS or cname(t) in ("PathBuf::new", "Default::default") or t.op in ("out", "oute", "lv", "lve", "empty"):
        return under(ps, p, t, frozenset(), relative=True)
    return "nothing on this path shows that all its components are ordinary names"


def filters(ps, i):
    return False


def under(ps, p, t, assumed, relative=False):
    """None when the path t is the destination, or an argument, extended by clean parts only"""
    t = plain(t)
    if t in assumed:
        return None
    n = cname(t)
    if n in ("Path::join",):
        return under(ps, p, cvals(t)[0], assumed, relative) or clean(ps, p, cvals(t)[1])
    if t.op in ("out", "oute"):
        c = t.a[0] if t.op == "out" else t.a[1]
        if cname(c) == "PathBuf::push":
            return under(ps, p, cvals(c)[0], assumed, relative) or clean(ps, p, cvals(c)[1])
        if cname(c) == "Extend::extend":
            return "extended by an iterator whose items are not examined"
    if t.op in ("lv", "lve"):
        ctx, bb, root, path = lvctx(t)
        for e in p.ev:
            if e.kind == "loop":
                for h in e.havoc:
                    if h[2] is t:
                        why = under(ps, p, h[3], assumed | {t}, relative)
                        if why:
                            return why
        for q in ps:
            if q.kind == "loop" and q.x["loop"] == (ctx, bb):
                v = q.load(root, path)
                if v is not t:
                    why = under(ps, q, v, assumed | {t}, relative)
                    if why:
                        return why
        return None
    if relative and (t.op == "empty" or n in ("PathBuf::new", "Default::default")):
        return None
    if relative:
        return "it does not start empty"
    if tainted(t):
        return "it is made from an entry name without the destination"
    if leaf(p, t):
        return None
    return "it is neither the destination nor made from it"


def leaf(p, t):
    """an argument or a captured variable of the function"""
    while t.op in ("d", "f", "v"):
        t = t.a[0]
    if t.op == "derefd":
        return t.a[0].op != "r" and leaf(p, plain(t.a[0]))
    return t.op in ("p", "k")


def capture(rule, P, k, t, ev):
    """what a closure captured as the destination is the destination argument of the function around it"""
    t = plain(t)
    while cname(t) == "Path::join" or t.op in ("out", "oute", "lv", "lve"):
        if cname(t) == "Path::join":
            t = plain(cvals(t)[0])
        elif t.op in ("out", "oute"):
            c = t.a[0] if t.op == "out" else t.a[1]
            t = plain(cvals(c)[0])
        else:
            rule.ok("destination", "%s: built in a loop" % k)
            return
    names = [s.a[1] for s in subterms(t) if s.op == "f" and str(s.a[1]).startswith("^")]
    if not names or "{closure" not in k:
        rule.ok("destination", "%s: its own argument" % k)
        return
    parent = k.rsplit("::{closure", 1)[0]
    e = flow.Engine(P, inline_filter=lambda x: relevant(P, x))
    ps = e.run(parent)
    rule.ran(e, ps, parent)
    n = 0
    for p in ps:
        for x in p.ev:
            for v, content in x.caps:
                if key_of(P, v.a[1]) == k and names[0] in v.a[2]:
                    c = plain(content[v.a[2].index(names[0])])
                    n += 1
                    if not leaf(p, c):
                        rule.bad("%s:destination" % k, x.where, "the closure that builds paths is given %s instead of the destination" % pp(c)[:100])
                    else:
                        rule.ok("destination", "%s: captures %s" % (k, pp(c)[:60]))
    if not n:
        rule.bad("%s:destination" % k, ev.where, "no place was found where this closure is given its destination")


def key_of(P, i):
    return i if i in P.bodies else (P.by_id.get(i) or {}).get("key")
