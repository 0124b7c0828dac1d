"""Block decoders of one archive share nothing that can change."""
import json, re
from sa.mir import adt_of

TECHNIQUE = "type reachability, call-graph effect analysis and inventory of aliasing constructs on the type-checked program"
RULE = """Nothing a block decoder borrows from outside (archive, password and every type reachable from them, containers and external types
included) holds a cell, a lock, an atomic, a non-atomic reference count, a raw pointer or a type-erased value, and no type of the library
claims Send or Sync by hand: so shared metadata is Send and Sync and a shared reference to it cannot change it. No function reachable
from the block decoder's methods (methods of trait implementations of every type built there included) refers to a static that is mutable
or whose type can change behind a shared reference (a static initialised by its own closure and frozen after is allowed), to a
thread-local, or turns a shared reference or const pointer into a mutable one, or calls into the file system, environment, network,
process or thread services; the only source of data is the reader it was given."""
NOTE = RULE + """ Code of dependencies and of the user's reader and callback is outside (their statics are seen where the library names
them). Functional equality with sequential decoding then follows: a decoder's inputs are the frozen metadata and its own source."""
LEVEL = "other"
EFFECT = ("std::fs::", "std::env::", "std::net::", "std::process::", "std::thread::", "std::os::", "std::sync::mpsc", "std::io::stdin", "std::io::stdio::stdin")
LOCKS = ("std::sync::", "std::cell::", "std::thread::")


def words(s):
    return re.findall(r"[A-Za-z_][\w:]*", s)


def reach(P, roots):
    """Functions reachable from the roots; implementations of trait methods
    count for the types built in what is reached."""
    ids = re.compile(r"DefPathHash\([^\"]*?\)\)")
    text = {}

    def of(k):
        if k not in text:
            it = P.items[k]
            text[k] = json.dumps([it["body"], it["promoted"]])
        return text[k]
    by_parent = {}
    for k, it in P.items.items():
        if "::{closure" in k:
            by_parent.setdefault(k.rsplit("::{closure", 1)[0], []).append(k)
    traits = {}
    for k, it in P.items.items():
        if it["kind"] == "fn" and it.get("trait"):
            traits.setdefault(adt_of(it["implself"]), []).append(k)
    seen, built, st = set(), set(), list(roots)
    while st:
        k = st.pop()
        if k in seen:
            continue
        seen.add(k)
        t = of(k)
        for i in set(ids.findall(t)):
            it = P.by_id.get(i)
            if it is not None:
                st.append(it["key"])
        st += by_parent.get(k, [])
        for a in P.adts:
            if a not in built and a in t:
                built.add(a)
                st += traits.get(a, [])
    return seen, built


def check(rule, P):
    roots = [k for k, it in P.items.items() if it["kind"] == "fn" and adt_of(it.get("implself") or "").endswith("reader::BlockDecoder")]
    dec = [a for a in P.adts if a.endswith("reader::BlockDecoder")]
    if not roots or not dec:
        rule.bad("missing:BlockDecoder", "src/reader.rs", "no block decoder found")
        return
    shared(rule, P, dec[0])
    fns, built = reach(P, roots)
    rule.fns |= fns
    statics(rule, P, fns)
    for k in sorted(fns):
        effects(rule, P, k)
    for im in P.impls:
        if im["trait"].split("::")[-1] in ("Send", "Sync") and im.get("unsafe") and adt_of(im["self"]) in set(built) | closure(P, list(outside(P, dec[0]))):
            rule.bad("impl:%s:%s" % (adt_of(im["self"]).split("::")[-1], im["trait"].split("::")[-1]), "%s:%s" % tuple(im["span"][:2]), "%s is claimed by hand for %s" % (im["trait"], im["self"]))
    for k, n in (("frozen-type", 8), ("function", 60), ("call", 300)):
        rule.floor(k, n)


def outside(P, dec):
    """types the decoder borrows"""
    out = set()
    for v in P.adts[dec]["variants"]:
        for f in v["fields"]:
            if f["ty"].startswith("&") and " mut " not in f["ty"][:12] and not f["ty"].startswith("&mut"):
                out |= set(w for w in words(f["ty"]) if w in P.adts)
    out |= {a for a in P.adts if a.endswith(("archive::Archive", "password::Password"))}
    return out


def closure(P, st):
    seen = set()
    while st:
        a = st.pop()
        if a in seen:
            continue
        seen.add(a)
        for v in P.adts[a]["variants"]:
            for f in v["fields"]:
                st += [w for w in words(f["ty"]) if w in P.adts]
    return seen


def shared(rule, P, dec):
    for a in sorted(closure(P, list(outside(P, dec)))):
        ad = P.adts[a]
        n = 0
        for v in ad["variants"]:
            for f in v["fields"]:
                for path, what in f.get("shared", ()):
                    n += 1
                    rule.bad("%s.%s" % (a.split("::")[-1], f["name"]), "%s:%s" % tuple(ad["span"][:2]),
                             "the metadata shared by all decoders holds %s (through %s)" % (what, (f["name"] + "." + path).strip(".")))
        if not n:
            rule.ok("frozen-type", a)


def once(it, body_text):
    """a static that computes its own value, the same whoever comes first, and then stays"""
    t = it["ty"]
    if not re.match(r"^std::(sync|cell)::(lazy_lock::|lazy::)?LazyLock<", t):
        return False
    inner = t[t.index("<") + 1:]
    return not re.search(r"Cell|Mutex|RwLock|Atomic|Once|Rc<|\*mut|\*const|dyn ", inner)


def statics(rule, P, fns):
    names = {it["path"]: it for it in P.items.values() if it["kind"] in ("static", "const") and "ty" in it}
    for k in sorted(fns):
        it = P.items[k]
        t = json.dumps([it["body"], it["promoted"]])
        where = "%s:%s" % tuple(it["span"][:2])
        short = k.split("::")[-1]
        for s in set(re.findall(r'"static": "([^"]+)"', t)):
            d = names.get(s)
            if d is None:
                rule.bad("%s:static" % short, where, "uses the global %s of another crate" % s)
            elif d["mut"]:
                rule.bad("%s:static" % short, where, "uses the mutable global %s" % s)
            elif d["shared"] and not once(d, None):
                rule.bad("%s:static" % short, where, "uses the global %s, whose %s every decoder can change" % (s, d["shared"][0][1]))
            else:
                rule.ok("static", s)
        for s in set(re.findall(r'\["tls", "([^"]+)"', t)):
            rule.bad("%s:tls" % short, where, "uses the thread-local %s" % s)
        if "LocalKey<" in t and it["kind"] != "const":
            rule.bad("%s:tls" % short, where, "uses a thread-local value")


def effects(rule, P, k):
    it = P.items[k]
    if it["kind"] not in ("fn", "closure"):
        return
    rule.ok("function", k)
    b = P.bodies[k]
    short = k.split("::")[-1]
    for bb, c in P.call_sites(b):
        f = c.get("res") or c.get("fn") or ""
        rule.ok("call", f)
        if f.startswith(EFFECT) or c.get("fn", "").startswith(EFFECT):
            rule.bad("%s:effect" % short, b.line(bb), "decoding calls %s" % f)
        if c.get("unsafe") and re.search(r"transmute|cast_mut|from_raw_parts_mut|UnsafeCell", f):
            rule.bad("%s:alias" % short, b.line(bb), "decoding calls %s" % f)
        if re.search(r"::cast_mut$|UnsafeCell", f):
            rule.bad("%s:alias" % short, b.line(bb), "decoding calls %s" % f)
    for i, bl in enumerate(b.blocks):
        for s in bl["s"]:
            alias(rule, b, i, s, short)


def alias(rule, b, i, s, short):
    if s[0] != "=":
        return
    rv = s[2]
    if rv[0] == "cast":
        fro, to = str(rv[-2]), str(rv[-1])
        if (to.startswith("*mut") or to.startswith("&mut") or "&mut" in to[:14]) and (fro.startswith("*const") or re.match(r"^&('\w+ )?(?!mut)", fro)) :
            rule.bad("%s:alias" % short, b.line(i), "a shared pointer (%s) is turned into a mutable one (%s)" % (fro, to))
