"""Misuse does not compile: compile-fail witnesses with compiling twins."""
import fcntl, json, os, re, shutil
from sa import facts
from checks.c24 import words

TECHNIQUE = "compile-fail witnesses with compiling twins (decided by the compiler's type and borrow checker); type reachability of raw pointers"
RULE = """Every program in /verif/witness misuses the library in one line (marked): it uses an archive writer after finish() took it (push,
push many, push paths, set methods, finish again) or a copy of it; keeps or sends away the entry reader of a callback (reader, block
decoder, extraction callbacks); uses a block decoder's source, or changes or moves its archive or password, while the decoder lives,
makes a second decoder on the same source, decodes one twice, lets one outlive its source; uses the stream under a decoder or
encoder (7z reader and writer, LZMA, LZMA2, AES, counting writer) while it wraps that stream, lent or owned; or copies one of these.
Type-checked against the
current library, each must be refused with an ownership, borrow or lifetime error (or because a shared reference would have to be
written through), and the same program without the marked line must compile. No type the library makes public holds a raw pointer,
directly or in a field, and none of its functions extends a lifetime (transmute, leaked boxes, slices made from raw parts)."""
NOTE = RULE + " The witnesses are only type-checked, never run. Interior aliasing through a user's own reader type (e.g. Rc, &File) is outside."
LEVEL = "other"
OWN = {"E0382", "E0499", "E0502", "E0503", "E0505", "E0506", "E0507", "E0515", "E0521", "E0594", "E0596", "E0597", "E0373", "E0716", "E0277", "E0310", "E0495", "E0700", "E0712", "E0713"}
DIR = os.path.join(facts.VERIF, "witness")
EXTEND = ("mem::transmute", "transmute", "Box::leak", "Vec::leak", "String::leak", "slice::from_raw_parts", "slice::from_raw_parts_mut", "transmute_copy",
          "ptr::read", "Box::from_raw", "mem::zeroed", "ManuallyDrop::take", "NonNull::as_mut", "NonNull::as_ref", "*mut T::as_mut", "*const T::as_ref")


def check(rule, P):
    witnesses(rule)
    pointers(rule, P)
    rule.floor("witness", 45)
    rule.floor("twin", 45)
    rule.floor("type", 15)


def split(name):
    src = open(os.path.join(DIR, name + ".rs")).read().split("\n")
    head = "#![allow(unused, dead_code, deprecated)]"
    bad = [head] + src + ["fn main() {}"]
    twin = [head] + ["" if "// MISUSE" in l else l for l in src] + ["fn main() {}"]
    mark = [i + 2 for i, l in enumerate(src) if "// MISUSE" in l]
    return "\n".join(bad), "\n".join(twin), mark


def witnesses(rule):
    names = sorted(f[:-3] for f in os.listdir(DIR) if f.endswith(".rs"))
    w = os.path.join(facts.BUILD, "witness")
    marks = {}
    os.makedirs(facts.BUILD, exist_ok=True)
    with open(os.path.join(facts.BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        shutil.rmtree(w, ignore_errors=True)
        os.makedirs(os.path.join(w, "src", "bin"))
        lib = facts.REPO
        man = ['[package]', 'name = "witness"', 'version = "0.0.0"', 'edition = "2021"', '[workspace]', '[dependencies]',
               'sevenz-rust = { path = %s, features = ["compress", "aes256", "bzip2", "zstd"] }' % json.dumps(lib)]
        for n in names:
            b, t, marks[n] = split(n)
            open(os.path.join(w, "src", "bin", n + "__bad.rs"), "w").write(b)
            open(os.path.join(w, "src", "bin", n + "__twin.rs"), "w").write(t)
        open(os.path.join(w, "Cargo.toml"), "w").write("\n".join(man) + "\n")
        for l in (os.path.join(lib, "Cargo.lock"), "/opt/vp/Cargo.lock"):
            if os.path.exists(l):
                shutil.copy(l, os.path.join(w, "Cargo.lock"))
                break
        env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(facts.BUILD, "target"), CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0")
        env.pop("RUSTFLAGS", None)
        m = os.path.join(w, "Cargo.toml")
        facts.sh(["cargo", "+nightly", "clean", "--offline", "-p", "sevenz-rust", "-p", "lzma-rust", "-p", "witness", "--manifest-path", m], env=env)
        r = facts.sh(["cargo", "+nightly", "check", "--offline", "--bins", "--keep-going", "--message-format=json", "--manifest-path", m], env=env, cwd=w)
    errs, seen = {}, set()
    for l in r.stdout.split("\n"):
        if not l.startswith("{"):
            continue
        try:
            x = json.loads(l)
        except ValueError:
            continue
        t = x.get("target", {}).get("name")
        if x.get("reason") == "compiler-artifact":
            seen.add(t)
        if x.get("reason") == "compiler-message":
            g = x["message"]
            if g["level"].startswith("error"):
                code = (g.get("code") or {}).get("code")
                if code is None and (g["message"].startswith("aborting due to") or g["message"].startswith("could not compile")):
                    continue
                if t not in [n + s for n in names for s in ("__bad", "__twin")]:
                    raise facts.FactsError("the library does not compile: %s" % g["message"])
                errs.setdefault(t, []).append((code, g["message"], [s["line_start"] for s in g["spans"]]))
    if not seen and not errs:
        raise facts.FactsError("the witnesses could not be type-checked:\n" + r.stdout[-1500:])
    for n in names:
        at = "witness/%s.rs" % n
        if errs.get(n + "__twin"):
            rule.bad("twin:" + n, at, "the proper use no longer compiles: %s %s" % errs[n + "__twin"][0][:2])
            continue
        if n + "__twin" not in seen:
            rule.bad("twin:" + n, at, "the proper use was not type-checked")
            continue
        rule.ok("twin", n)
        e = errs.get(n + "__bad")
        if not e:
            rule.bad("witness:" + n, at, "the misuse compiles: %s" % misuse(n))
            continue
        odd = [x for x in e if x[0] is not None and x[0] not in OWN or x[0] == "E0277" and not bound(n) or x[0] is None and "lifetime" not in x[1]]
        if odd:
            rule.bad("witness:" + n, at, "the misuse is refused for another reason: %s %s" % odd[0][:2])
            continue
        rule.ok("witness", "%s %s" % (n, sorted({x[0] or "lifetime" for x in e})))


def bound(n):
    """the refusal is a missing Send or Clone"""
    return n == "entry_reader_thread" or n.startswith("noclone_")


def misuse(n):
    return "; ".join(l.split("// MISUSE")[0].strip() for l in open(os.path.join(DIR, n + ".rs")).read().split("\n") if "// MISUSE" in l)


def pointers(rule, P):
    def ptr(ty):
        return bool(re.search(r"\*(mut|const) ", ty) or "NonNull<" in ty or "UnsafeCell<" in ty)

    def fields(a):
        for v in P.adts[a]["variants"]:
            for f in v["fields"]:
                yield (f["name"], f["ty"]) if isinstance(f, dict) else (f[0], f[1])
    for a, d in sorted(P.adts.items()):
        if not public(P, a, d):
            continue
        seen, st, hit = {a}, [a], None
        while st and not hit:
            x = st.pop()
            for n, ty in fields(x):
                if ptr(ty):
                    hit = (x, n, ty)
                    break
                for w in words(ty):
                    if w in P.adts and w not in seen:
                        seen.add(w)
                        st.append(w)
        if hit:
            rule.bad("pointer:" + a, a, "%s.%s is %s: what it points to is not tied to a borrow" % hit)
        else:
            rule.ok("type", a)
    for k, b in sorted(P.bodies.items()):
        for bl in b.blocks:
            t = bl["t"]
            n = t[1].get("fn", "") if t and t[0] == "call" and isinstance(t[1], dict) else ""
            if n and any(n == x or n.endswith("::" + x) or n.split("::")[-1] == x.split("::")[-1] and x.split("::")[0] in n for x in EXTEND):
                rule.bad("extends:" + k, "%s (%s)" % (k, b.file()), "%s makes a value whose lifetime is not that of what it comes from" % n)
    rule.ok("scan", "%d functions" % len(P.bodies))


def public(P, a, d):
    return d["pub"]
