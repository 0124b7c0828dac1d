"""The file records the writer emits are those the reader and the 7z format expect."""
import itertools
import re
from sa.terms import *
from sa import flow
from sa.prov import *
from checks.hgram import *
from checks.htab import *
from checks import wstream
from checks.c19 import strof, loc

TECHNIQUE = "property-record extraction from writer and reader (abstract interpretation of MIR), matched against the format"
RULE = """The entry records are decided in both directions. Writer: the section functions are found by what they take (the header, the
entries); each path is one record: its tag, the byte length that equals what follows it, the presence part (all-defined byte or a bit
set whose bit for each described entry is set exactly when that entry has the property, sized by the number of entries described),
the external byte where the format has one, then in entry order the value of exactly the entries present, from the attribute of the
tag (times and attributes little endian 8 and 4 bytes, names as UTF-16 LE with a final 0). kEmptyStream comes before kEmptyFile and
kAnti, which are numbered over the entries without a stream, and a record is left out only when no entry has it. An entry whose name
has a 0 inside is refused. Reader: each tag's branch stores bit k into the presence attribute and the value into the value attribute
of entry k for exactly the k present, reading as many bytes as the format has; names are split at 0 units and counted; the final loop
gives each entry has_stream, directory, anti from the bits at its rank among the entries without a stream, and size, digest and its
presence from one sub-stream at its rank among those with one."""
NOTE = RULE + " The bit order inside a bit set and the number coding are taken as tokens. Names are compared at the level of UTF-16 units."

WR = "sevenz_rust::writer"
ENTRY = "SevenZArchiveEntry"
NAMES = {0x0E: "kEmptyStream", 0x0F: "kEmptyFile", 0x10: "kAnti", 0x11: "kName", 0x12: "kCTime", 0x13: "kATime", 0x14: "kMTime", 0x15: "kWinAttributes"}
# id: (attributes it depends on, when an entry has it)
WHO = {
    0x0E: (("has_stream",), lambda a: not a["has_stream"]),
    0x0F: (("has_stream", "is_directory"), lambda a: not a["has_stream"] and not a["is_directory"]),
    0x10: (("has_stream", "is_anti_item"), lambda a: not a["has_stream"] and a["is_anti_item"]),
    0x12: (("has_creation_date",), lambda a: a["has_creation_date"]),
    0x13: (("has_access_date",), lambda a: a["has_access_date"]),
    0x14: (("has_last_modified_date",), lambda a: a["has_last_modified_date"]),
    0x15: (("has_windows_attributes",), lambda a: a["has_windows_attributes"]),
}
VALUE = {0x12: "creation_date", 0x13: "access_date", 0x14: "last_modified_date", 0x15: "windows_attributes"}
NOSTREAM = (("has_stream",), lambda a: not a["has_stream"])


def check(rule, P):
    w_files(rule, P)
    w_nul(rule, P)
    r_files(rule, P)
    for k, n in (("sections", 8), ("section-paths", 16), ("properties", 8), ("absent", 7), ("reader-properties", 8), ("entry-rounds", 4), ("names", 2)):
        rule.floor(k, n)


# ---------------------------------------------------------------- writer

def params(P, key):
    b = P.bodies[key]
    return [b.locals[i] for i in range(1, b.argc + 1)]


def is_writer(ty):
    return re.match(r"^&mut ([A-Z]\w*|std::vec::Vec<u8>|impl .*)$", ty) is not None


def files_place(P, key):
    for ty, nm in params(P, key):
        if "SevenZWriter<" in ty and ty.startswith("&"):
            return mk("D", mk("p", nm)), (("f", "files"),)
        if ENTRY in ty and ty.startswith("&") and ("[" in ty or "Vec<" in ty):
            return mk("D", mk("p", nm)), ()
    return None


def given_files(P, ev):
    """the entries a section function is called for"""
    for i, (ty, nm) in enumerate(params(P, ev.x)):
        if "SevenZWriter<" in ty:
            return field(ev.vals[i], "files")
        if ENTRY in ty:
            return ev.vals[i]


def is_section(P, key):
    """a function of the writer that gets the header's output, the entries and nothing else"""
    if not isinstance(key, str) or WR not in key or "#" in key or "{" in key or key not in P.bodies:
        return False
    ty = [t for t, _ in params(P, key)]
    return any(is_writer(t) for t in ty) and files_place(P, key) is not None and len(ty) == 2


def section_paths(rule, P, key):
    op = {k for k in P.bodies if WR in k and "#" not in k and "{" not in k and k.split("::")[-1] in ("write_u64", "write_bit_set")}
    op |= {k for k in P.bodies if is_section(P, k)}
    eng = flow.Engine(P, opaque=op - {key})
    ps = eng.run(key)
    rule.ran(eng, ps, key)
    return ps


class Sec:
    def __init__(self, rule, P, key):
        self.rule, self.P, self.key = rule, P, key
        self.name = key.split("::")[-1]
        self.ps = section_paths(rule, P, key)
        self.root = next(mk("D", mk("p", n)) for t, n in params(P, key) if is_writer(t))
        self.place = files_place(P, key)
        self.where = "%s (%s)" % (key, P.bodies[key].file())

    def files(self, p):
        return p.load(*self.place)


def w_files(rule, P):
    ks = [k for k in P.bodies if k.endswith("::write_files_info") and WR in k and "#" not in k]
    if len(ks) != 1:
        rule.bad("missing:write_files_info", "-", "function write_files_info not found (or ambiguous): %s" % ks)
        return
    covered = {}
    section(rule, P, ks[0], True, covered)
    for i, n in sorted(NAMES.items()):
        if i not in covered:
            rule.bad("write_files_info:%s" % n, "%s (%s)" % (ks[0], P.bodies[ks[0]].file()), "no path writes the property %s" % n)
    # every path of the section emits the stream flags before what refers to them
    for a in (0x0F, 0x10):
        if a in covered and 0x0E in covered and not covered[0x0E] < covered[a]:
            rule.bad("write_files_info:order", ks[0], "%s is written before kEmptyStream" % NAMES[a])


def section(rule, P, key, top, covered):
    """covered: id -> position at which it is written"""
    s = Sec(rule, P, key)
    rule.ok("sections", key)
    own = {}
    paths = []
    for p in oks(s.ps):
        c = cursor(rule, s.name, s.ps, p, s.root, s.where)
        n = length(s.files(p))
        if top:
            c.byte(5, "kFilesInfo")
            c.num(n, "number of entries")
        seen = set()
        while not c.bad_:
            k, v, t = c.peek()
            if k is None:
                if top:
                    c.fail("kEnd")
                break
            if top and k == "byte" and c.eq(v, ZERO):
                c.byte(0, "kEnd")
                c.end()
                break
            if t is not None and t.kind == "call" and is_section(P, t.ev.x):
                c.i += 1
                if given_files(P, t.ev) is not s.files(p):
                    c.fail("the same entries as the other properties describe")
                    break
                if t.ev.x not in own:
                    own[t.ev.x] = section(rule, P, t.ev.x, False, covered)
                dup = own[t.ev.x] & seen
                seen |= own[t.ev.x]
                if dup:
                    c.fail("no property twice (%s)" % NAMES[min(dup)])
                continue
            if k == "byte" and v.op == "c" and v.a[0] in NAMES:
                i = v.a[0]
                if i in seen:
                    c.fail("%s only once" % NAMES[i])
                    break
                seen.add(i)
                if i not in covered:
                    covered[i] = len(covered)
                prop(rule, s, p, c, i)
                continue
            if k == "byte" and v.op == "c" and v.a[0] == 0x19:
                c.i += 1
                k2, v2, t2 = c.peek()
                if k2 != "num":
                    c.fail("length of kDummy")
                    break
                c.i += 1
                t3 = c.raw("the bytes of kDummy")
                if t3 is not None and not c.eq(v2, length(t3.vals[1])):
                    c.fail("the length of the bytes of kDummy")
                continue
            c.fail("a property of the entries")
        rule.ok("section-paths", s.name)
        paths.append((p, seen))
    ids = set().union(*[x for _, x in paths]) if paths else set()
    for p, seen in paths:
        for i in sorted(ids - seen):
            if i == 0x11:
                if not p.entails(eq0(length(s.files(p)))):
                    rule.bad("%s:absent" % s.name, s.where, "the names of the entries are left out on a successful path")
            elif i in WHO and not none_has(s, p, WHO[i]):
                rule.bad("%s:absent" % s.name, s.where, "%s is left out on a path where an entry may have it" % NAMES[i])
            rule.ok("absent", "%s %s" % (s.name, NAMES[i]))
    return ids


def prop(rule, s, p, c, i):
    """one property record: id, length in bytes, that many bytes"""
    c.byte(i, NAMES[i])
    k, x, t = c.peek()
    if k != "num":
        c.fail("the length of %s" % NAMES[i])
        return
    c.i += 1
    t = c.raw("the bytes of %s" % NAMES[i])
    if t is None:
        return
    v = t.vals[1]
    if not (uncast(x) is length(v) or p.entails(eqi(uncast(x), length(v)))):
        c.i -= 1
        c.fail("the record of %s: the length written for it is %s, it has %s bytes" % (NAMES[i], pp(x)[:80], pp(length(v))[:80]))
        return
    b = Buf(rule, "%s:%s" % (s.name, NAMES[i]), s.ps, p, content_atoms(p, v), t.where)
    if i in (0x0E, 0x0F, 0x10):
        bits(s, p, b, i)
    elif i == 0x11:
        names(s, p, b)
    else:
        times(s, p, b, i)
    b.end()
    c.bad_ = c.bad_ or b.bad_
    rule.ok("properties", "%s %s" % (s.name, NAMES[i]))


class Where:
    """stands for a token in messages"""

    def __init__(self, ev):
        self.ev, self.where, self.kind, self.name = ev, ev.where if ev is not None else "-", "loop", "loop"


def content_atoms(p, v, cell=None):
    """What a byte buffer with content v was made of, in order. A loop that appends to it is one atom."""
    out = []
    own = p.x.get("loop") if p.kind == "loop" else None
    while True:
        if v.op == "push":
            out.append(("byte", v.a[1], None))
            v = v.a[0]
        elif v.op == "cat":
            out += reversed(one_value(v.a[1]))
            v = v.a[0]
        elif v.op == "out":
            e = [e for e in p.ev if e.kind == "call" and e.ret is v.a[0]]
            nm = e[-1].name.split("::")[-1] if e else ""
            if nm == "write_bit_set":
                out.append(("bits", e[-1].vals[1], Where(e[-1])))
                v = e[-1].vals[0]
            elif nm in ("extend", "extend_from_slice", "append"):
                out.append(("raw", e[-1].vals[1], Where(e[-1])))
                v = e[-1].vals[0]
            elif nm in ("flush", "reserve"):
                v = e[-1].vals[0]
            else:
                out.append(("?", v, Where(e[-1]) if e else None))
                break
        elif v.op in ("lv", "lve"):
            ctx, bb, r, pa = lvctx(v)
            le_ = [e for e in p.ev if e.kind == "loop" and e.x in ((ctx, bb), ("it", ctx))]
            h = [h for h in le_[-1].havoc if (h[0], h[1]) == (r, pa)] if le_ else []
            if not h or le_[-1].x == own:
                break
            w = Where(le_[-1])
            w.cell = (r, pa)
            out.append(("loop", None, w))
            v = h[0][3]
        else:
            if v.op != "empty" and length(v) is not ZERO:
                out += reversed([("?", x, n) if k == "raw" else (k, x, n) for k, x, n in one_value(v)])
            break
    out.reverse()
    return out


def one_value(x):
    if x.op == "bytes":
        return [("byte" if x.a[0] == 1 else "le%d" % (8 * x.a[0]) if x.a[1] == "le" else "?", x.a[2], None)]
    if x.op == "a" and x.a[0] == "array" and x.a[3]:
        return [("byte", y, None) for y in x.a[3]]
    if x.op == "b":
        return [("byte", C(y), None) for y in x.a[0]]
    if x.op == "rep" and isc(x.a[1]) and x.a[1].a[0] <= 16:
        return [("byte", x.a[0], None)] * x.a[1].a[0]
    return [("raw", x, None)]


class Buf(Cur):
    """the same for what was appended to a buffer"""

    def peek(self):
        while self.i < len(self.ats) and self.ats[self.i][0] == "loop" and not self.writes(self.ats[self.i][2]):
            self.i += 1
        return self.ats[self.i] if self.i < len(self.ats) else (None, None, None)

    def writes(self, w):
        return any(content_atoms(q, q.load(*w.cell)) for q in self.ps if q.kind == "loop" and q.x["loop"] == w.ev.x)

    def fail(self, what):
        if not self.bad_:
            at = self.ats[self.i] if self.i < len(self.ats) else None
            got = "%s %s" % (at[0], pp(at[1])[:80] if at[1] is not None else "") if at else "the end"
            self.rule.bad(self.key, at[2].where if at and at[2] is not None else self.where, "%s expected here, the writer emits %s" % (what, got))
        self.bad_ = True
        return None

    def le(self, n, v, what, same=None):
        k, x, t = self.peek()
        if k != "le%d" % n or not (same(uncast(x)) if same else self.eq(x, v)):
            return self.fail("%d bits %s (%s)" % (n, pp(v)[:60], what))
        self.i += 1
        return True

    def rep(self, H, what, body, opt=None):
        k, x, t = self.peek()
        if k != "loop":
            if isc(H, 0) or self.p.entails(eq0(uncast(H))):
                return True
            return self.fail("loop over %s (%s)" % (pp(H)[:60], what))
        its = rounds(self.ps, self.p, t.ev, H)
        if its is None:
            return self.fail("a loop over all of 0..%s in order (%s)" % (pp(H)[:60], what))
        self.i += 1
        for q, n, s in its:
            d = Buf(self.rule, self.key, self.ps, q, content_atoms(q, q.load(*t.cell)), t.where)
            body(d, n)
            if not d.bad_ and d.peek()[0] is not None:
                d.fail("the end of the record of %s" % what)
            self.bad_ = self.bad_ or d.bad_
        return True


# ---- what a round of a loop over the entries knows of its entry

def assigned(attrs):
    return [dict(zip(attrs, vs)) for vs in itertools.product((False, True), repeat=len(attrs))]


def possible(q, e, a):
    """the path with the entry e known to have these attributes, or None"""
    t = q.copy()
    for n, v in a.items():
        f = field(e, n)
        if decided(t, f) is (not v) or not t.assume(f if v else neg(f)):
            return None
    return t


def counter(s, p, lv, who):
    """lv holds, after (or at the start of a round of) its loop over the entries, how many (so far) satisfy `who`"""
    if lv.op != "lv":
        return False
    ctx, bb, root, path = lvctx(lv)
    le_ = [e for e in p.ev if e.kind == "loop" and e.x in ((ctx, bb), ("it", ctx))]
    h = [h for h in le_[-1].havoc if h[2] is lv] if le_ else []
    if not h or not isc(h[0][3], 0):
        return False
    return le_[-1] if counts(s, p, le_[-1], root, path, lv, who) else False


def counts(s, p, le_, root, path, lv, who):
    its = entry_rounds(s, p, le_)
    if not its:
        return False
    for q, e, k, st in its:
        for a in assigned(who[0]):
            t = possible(q, e, a)
            if t is None:
                continue
            d = sub(t.load(root, path), lv)
            if not isc(d, 1 if who[1](a) else 0):
                return False
    return True


def entry_rounds(s, p, le_):
    """[(round, its entry, its number, first event)] of a loop over all entries; inside such a round: of the rounds of its own loop"""
    if p.kind == "loop" and p.x["loop"] == le_.x:
        ps = [p] + [q for q in s.ps if q.kind == "loop" and q.x["loop"] == le_.x and q is not p]
        out = []
        for q in ps:
            i = max(i for i, e in enumerate(q.ev) if e.kind == "loop" and e.x == le_.x)
            ev = item_event(q, i + 1, le_)
            if ev is None:
                return None
            b = base_of(ev.vals[0])
            lo = b.a[1] if b.op == "it" and b.a[0] == "range" else ZERO
            k = sub(ev.vals[1], lo)
            out.append((q, elem(s.files(q), k), k, i + 1))
        return out
    its = rounds(s.ps, p, le_, length(s.files(p)))
    return None if its is None else [(q, elem(s.files(q), k), k, st) for q, k, st in its]


def whole_scans(s, p):
    for le_ in p.ev:
        if le_.kind == "loop":
            its = entry_rounds(s, p, le_)
            if its:
                yield le_, its


def ended(p, q, le_, its):
    """q restricted by what p knows of the flags and counters of the loop after its end; None when such a round cannot have been"""
    q = flagged(p, q, [h for h in le_.havoc if len(h) == 4 and h[2].op == "lv"], [r for r, _, _, _ in its])
    if q is None:
        return None
    for h in le_.havoc:
        if len(h) == 4 and h[2].op == "lv" and isc(h[3], 0) and p.entails(eq0(h[2])) and grows(its, h):
            d = sub(q.load(h[0], h[1]), h[2])
            if d.op == "c" and d.a[0] > 0:
                return None          # the counter only grows, and is still 0
    return q


def none_has(s, p, who):
    """on p, no entry satisfies `who`"""
    if p.entails(eq0(length(s.files(p)))):
        return True
    return all_entries(s, p, (who[0], lambda a: not who[1](a))) or empty_set(s, p, who)


def empty_set(s, p, who):
    """a bit set into which every entry that satisfies `who` is put is known to be empty"""
    for f in p.facts:
        if cname(f) != "BitSet::is_empty" or cvals(f)[0].op not in ("lv", "lve"):
            continue
        ctx, bb, root, path = lvctx(cvals(f)[0])
        for le_, its in whole_scans(s, p):
            if le_.x in ((ctx, bb), ("it", ctx)) and all(
                    [x[0] for x in inserted(q, st, (root, path))] == ["insert"] or not any(who[1](a) and possible(q, e, a) is not None for a in assigned(who[0]))
                    for q, e, k, st in its) and all(x[0] == "insert" for q, e, k, st in its for x in inserted(q, st, (root, path))):
                return True
    return False


def all_entries(s, p, who):
    for le_, its in whole_scans(s, p):
        good = True
        for q, e, k, st in its:
            r = ended(p, q, le_, its)
            if r is not None and any(not who[1](a) and possible(r, e, a) is not None for a in assigned(who[0])):
                good = False
        if good:
            return True
        # a count of those that do, and it is the number of the entries
        for h in le_.havoc:
            if len(h) == 4 and h[2].op == "lv" and isc(h[3], 0) and p.entails(eqi(h[2], length(s.files(p)))) and counts(s, p, le_, h[0], h[1], h[2], who):
                return True
    return False


def grows(its, h):
    ds = [sub(q.load(h[0], h[1]), h[2]) for q, e, k, st in its]
    return all(d.op == "c" and d.a[0] >= 0 for d in ds)


def inserted(q, st, cell):
    out = []
    for e in q.ev[st:]:
        if e.kind == "call" and e.name.startswith("BitSet::") and e.args and e.args[0].op == "r" and (e.args[0].a[1], e.args[0].a[2]) == cell and e.name != "BitSet::contains":
            out.append((e.name.split("::")[-1], e.vals[1] if len(e.vals) > 1 else None, e))
    return out


def bitset(s, p, b, set_, i, compact):
    """the set holds the number of every entry that has the property: among all, or among those without a stream"""
    who, n = WHO[i], NAMES[i]
    if set_.op not in ("lv", "lve"):
        b.fail("a bit set of the entries with %s, filled in one loop over all entries" % n)
        return
    ctx, bb, root, path = lvctx(set_)
    le_ = [e for e in p.ev if e.kind == "loop" and e.x in ((ctx, bb), ("it", ctx))]
    h = [h for h in le_[-1].havoc if (h[0], h[1]) == (root, path)] if le_ else []
    if not h or cname(h[0][3]) != "BitSet::with_capacity":
        b.fail("a new bit set with room for the entries it describes (%s)" % n)
        return
    cap = uncast(cvals(h[0][3])[0])
    if compact:
        if not counter(s, p, cap, NOSTREAM):
            b.fail("a bit set with room for the entries without a stream (%s), not for %s" % (n, pp(cap)[:60]))
            return
    elif not b.eq(cap, length(s.files(p))):
        b.fail("a bit set with room for all entries (%s), not for %s" % (n, pp(cap)[:60]))
        return
    its = entry_rounds(s, p, le_[-1])
    if not its:
        b.fail("a bit set filled in one loop over all entries (%s)" % n)
        return
    for q, e, k, st in its:
        ins = inserted(q, st, (root, path))
        if len(ins) > 1 or ins and ins[0][0] != "insert":
            b.fail("a bit set with one bit per entry (%s)" % n)
            return
        for a in assigned(who[0]):
            t = possible(q, e, a)
            if t is None:
                continue
            if bool(ins) is not bool(who[1](a)):
                b.fail("the bit of an entry with %s %s (%s)" % (", ".join("%s=%s" % x for x in sorted(a.items())), "set" if who[1](a) else "clear", n))
                return
        if ins:
            x = uncast(ins[0][1])
            if not compact:
                if not (x is k or q.entails(eqi(x, k))):
                    b.fail("the bit at the entry's number (%s), not at %s" % (n, pp(x)[:40]))
                    return
            elif not (counts_here(s, p, le_[-1], its, x) or ranked(its, x)):
                b.fail("the bit at the entry's number among those without a stream (%s), not at %s" % (n, pp(x)[:40]))
                return


def counts_here(s, p, le_, its, x):
    h = [h for h in le_.havoc if len(h) == 4 and h[2] is x]
    return bool(h) and isc(h[0][3], 0) and counts(s, p, le_, h[0][0], h[0][1], x, NOSTREAM)


def ranked(its, x):
    """number among the items a filter lets pass, and it lets exactly those without a stream pass"""
    if x.op != "rank":
        return False
    for q, e, k, st in its:
        left = bool(q.x.get("left"))
        for a in assigned(NOSTREAM[0]):
            if possible(q, e, a) is not None and left is not a["has_stream"]:
                return False
    return True


def bits(s, p, b, i):
    k, v, t = b.peek()
    if k != "bits":
        return b.fail("the bit set of %s" % NAMES[i])
    bitset(s, p, b, v, i, i != 0x0E)
    b.i += 1


def times(s, p, b, i):
    n = length(s.files(p))
    k, v, t = b.peek()
    y = v if v is None else C(int(truth(p, v))) if uncast(v).op != "c" and truth(p, uncast(v)) is not None else uncast(v)
    if k == "byte" and y.op == "c" and y.a[0] != 0:
        if y.a[0] != 1 or not all_entries(s, p, WHO[i]):
            return b.fail("'all defined' of %s only where every entry has it" % NAMES[i])
        b.i += 1
    else:
        if k == "byte" and isc(y, 0):
            b.i += 1
        else:
            b.fail("byte 0 (not all defined)")
        k, v, t = b.peek()
        if b.bad_ or k != "bits":
            return b.fail("the bit set of the entries with %s" % NAMES[i])
        bitset(s, p, b, v, i, False)
        b.i += 1
    b.byte(0, "not external")
    w = 32 if i == 0x15 else 64

    def body(d, k):
        e = elem(s.files(d.p), k)
        f = field(e, VALUE[i])
        ats = d.ats
        for a in assigned(WHO[i][0]):
            if possible(d.p, e, a) is None:
                continue
            if bool(d.peek()[0]) is not bool(WHO[i][1](a)):
                return d.fail("a value exactly for the entries that have %s" % NAMES[i])
        if ats:
            d.le(w, f, VALUE[i], lambda x: x is f or cname(x) in ("Into::into", "From::from") and cvals(x)[0] is f)
    b.rep(n, VALUE[i], body)


def names(s, p, b):
    b.byte(0, "not external")

    def body(d, k):
        nm = field(elem(s.files(d.p), k), "name")
        u = mk("pure", "str::encode_utf16", nm)
        d.rep(length(u), "characters of a name", lambda g, j: g.le(16, elem(u, j), "UTF-16 unit of the name"))
        z = d.peek()
        if z[0] == "le16":
            d.le(16, ZERO, "end of the name")
        else:
            d.byte(0, "end of the name")
            d.byte(0, "end of the name")
    b.rep(length(s.files(p)), "names", body)


def nul(p, t):
    return isc(t, 0) or strof(p, t) in ("\0", "\\0")


def no_nul(ps, p, name):
    """p knows that the name has no character 0"""
    def scanned(x):
        return cname(x) in ("str::contains", "str::find", "slice::contains") and cvals(x)[0] is name and nul(p, cvals(x)[1])
    for f in p.facts:
        if f.op == "not" and scanned(f.a[0]) or any(scanned(x) and cname(x) == "str::find" and p.variant_of(x) == "None" for x in subterms(f)):
            return True
    for e in p.ev:
        if e.kind != "next" or e.name != "done":
            continue
        s = seq_of(e)
        if s is None:
            continue
        if any(x is name for x in subterms(s)) and (s is name or cname(s) in ("str::bytes", "str::chars", "str::encode_utf16")):
            if every_item(ps, p, e, lambda q, x: q.entails(ne0(elem(s, x.vals[1])))):
                return True
        elif p.entails(ge0(sub(length(s), ONE))) and every_item(ps, p, e, lambda q, x: no_nul(ps, q, name)):
            return True
    return False


def w_nul(rule, P):
    """a name ends at its first 0 in the header: none is taken that has one inside"""
    ents = mk("p", "entries")
    for fn in ("push_archive_entry", "push_archive_entries"):
        key, ps = wstream.run(P, rule, fn)
        if key is None:
            rule.bad(fn, WR, "SevenZWriter::%s is not there" % fn)
            continue
        good = oks(ps)
        for p in good:
            if fn == "push_archive_entry":
                fs = p.load(wstream.SELF, (("f", "files"),))
                okk = fs.op == "push" and no_nul(ps, p, field(fs.a[1], "name"))
            else:
                okk = any(e.kind == "next" and e.name == "done" and seq_of(e) is ents and
                          every_item(ps, p, e, lambda q, x: no_nul(ps, q, field(elem(ents, x.vals[1]), "name"))) for e in p.ev)
            if not okk:
                rule.bad("%s:name" % fn, loc(P, key), "an entry is taken although its name may have a character 0 inside, where the header would end it")
                break
        else:
            rule.ok("names", "%s: %d paths" % (fn, len(good)))


# ---------------------------------------------------------------- reader

AR = mk("D", mk("p", "archive"))
SETS = (0x0E, 0x0F, 0x10)
ATTRS = ("name", "has_stream", "is_directory", "is_anti_item", "has_creation_date", "has_last_modified_date", "has_access_date", "creation_date",
         "last_modified_date", "access_date", "has_windows_attributes", "windows_attributes", "has_crc", "crc", "size")
FLAG = {0x12: "has_creation_date", 0x13: "has_access_date", 0x14: "has_last_modified_date", 0x15: "has_windows_attributes"}
READ = {0x12: ("read_u64le",), 0x13: ("read_u64le",), 0x14: ("read_u64le",), 0x15: ("read_u32",)}


class Reader:
    pass


def r_files(rule, P):
    key = one(rule, P, "read_files_info")
    if not key:
        return
    r = Reader()
    r.rule, r.ps, r.root = rule, run(rule, P, key), header_root(P, key)
    r.where = "%s (%s)" % (key, P.bodies[key].file())
    goods = oks(r.ps)
    if not goods:
        rule.bad("read_files_info:none", r.where, "no successful path")
    for p in goods:
        r.p = p
        reader_path(r, p)


def bad(r, part, what, where=None):
    r.rule.bad("read_files_info:%s" % part, where or r.where, what)


def reader_path(r, p):
    ts = tokens(p, r.root)
    if not ts or ts[0].name not in ("read_usize", "read_u64"):
        return bad(r, "count", "the number of entries is not read first")
    r.n = ts[0].value
    v = p.load(AR, (("f", "files"),))
    base, segs = chain_of(p, v)
    loops = [s for s in segs if s[0] == "loop"]
    if len(loops) != len(segs) or not 1 <= len(loops) <= 2:
        return bad(r, "entries", "archive.files is not the table the properties were stored in, completed by one loop over the entries")
    # the loop over the properties reads from the header, the one over the entries does not
    props = [e for e in p.ev if e.kind == "loop" and any(q.kind == "loop" and q.x["loop"] == e.x and tokens(q, r.root, start_of(q, e)) for q in r.ps)]
    if len(props) != 1:
        return bad(r, "properties", "the properties are not read in one loop")
    lo = props[0]
    last = [s for s in loops if s[1] is not lo]
    if len(last) != 1:
        return bad(r, "entries", "the entries are not completed in one loop after the properties were read")
    le_, (root, path) = last[0][1], last[0][2]
    h = [h for h in le_.havoc if (h[0], h[1]) == (root, path)][0]
    r.lo, r.cell = lo, (root, path)
    if projection(h[3])[0].op in ("lv", "lve"):
        c2 = lvctx(projection(h[3])[0])
        if (c2[2], c2[3]) != (root, path):
            r.cell = (c2[2], c2[3])
    before = [x for x in lo.havoc if (x[0], x[1]) == r.cell]
    if not before or not (length(before[0][3]) is r.n or p.entails(eqi(length(before[0][3]), uncast(r.n)))):
        return bad(r, "entries", "the table of entries does not have the number of entries that was read")
    properties(r)
    if len(r.sets) != 3:
        return
    its = rounds(r.ps, p, le_, length(h[3]))
    if its is None:
        return bad(r, "entries", "the entries are not completed in one loop over all of them, in order")
    final(r, p, le_, its, root, path)


def start_of(q, le_):
    return max(i for i, e in enumerate(q.ev) if e.kind == "loop" and e.x == le_.x) + 1


def is_some(v):
    return variant(v) == "Some"


def iterations_of(r):
    """(path, identifier or None, tokens after it) of each round of the loop over the properties"""
    for q in r.ps:
        if q.kind == "loop" and q.x["loop"] == r.lo.x:
            ts = tokens(q, r.root, start_of(q, r.lo))
            if len(ts) >= 2 and ts[0].name == "read_u8":
                yield q, const_of(q, ts[0].value, range(0, 0x1A)), ts[1:]
            else:
                lvs = [x for x in r.lo.havoc if x[2].op == "lv" and ts and q.load(x[0], x[1]) is ts[-1].value]
                yield q, const_of(q, lvs[0][2], range(0, 0x1A)) if lvs else None, ts[:-1] if lvs else ts


def properties(r):
    r.sets = {}
    seen = set()
    its = list(iterations_of(r))
    # the places in which the sets are kept
    for q, c, ts in its:
        for x in r.lo.havoc:
            v = q.load(x[0], x[1])
            if v is x[2] or (x[0], x[1]) == r.cell or x[0] is r.root:
                continue
            rd = [t for t in ts if t.name == "read_bits"]
            if len(rd) == 1 and is_some(v) and field(vfield(v, "Some"), "0") is rd[0].value:
                if c not in SETS:
                    bad(r, "sets", "property %s is kept as a set of entries" % (hex(c) if c is not None else "?"), rd[0].where)
                    continue
                if c in r.sets and (r.sets[c][0], r.sets[c][1]) != (x[0], x[1]):
                    bad(r, "sets", "%s is kept in two places" % NAMES[c], rd[0].where)
                r.sets[c] = x
    for c in SETS:
        if c not in r.sets:
            bad(r, "sets", "%s is not kept for the entries" % NAMES[c])
    places = {(x[0], x[1]): c for c, x in r.sets.items()}
    if len(places) != len(r.sets):
        bad(r, "sets", "two properties are kept in one place")
        return
    for q, c, ts in its:
        size, ts = ts[0] if ts else None, ts[1:]
        seen.add(c)
        for pl, owner in places.items():
            x = r.sets[owner]
            v = q.load(*pl)
            if c == owner:
                rd = [t for t in ts if t.name == "read_bits"]
                if len(ts) != 1 or len(rd) != 1 or not is_some(v) or field(vfield(v, "Some"), "0") is not rd[0].value:
                    bad(r, NAMES[c], "the record is not read as one bit set, which is kept", ts[0].where if ts else None)
                    continue
                n = uncast(rd[0].vals[1])
                if c == 0x0E:
                    good = n is uncast(r.n) or q.entails(eqi(n, uncast(r.n)))
                else:
                    e = vfield(r.sets[0x0E][2], "Some") if 0x0E in r.sets else None
                    good = e is not None and cname(n) == "BitSet::len" and cvals(n)[0] is field(e, "0")
                if not good:
                    bad(r, NAMES[c], "the set is read with %s bits, not one per entry%s" % (pp(n)[:60], "" if c == 0x0E else " without a stream"), rd[0].where)
                r.rule.ok("reader-properties", NAMES[c])
            elif v is not x[2]:
                bad(r, NAMES[owner], "the set of %s is changed by another property (%s)" % (NAMES[owner], c), None)
        if c in FLAG:
            stamps(r, q, c, ts)
        elif c == 0x11:
            named(r, q, ts)
        else:
            if q.load(*r.cell) is not at_start(q, r.lo, *r.cell):
                bad(r, "other", "property %s changes the entries" % (hex(c) if c is not None else "of an unknown kind"))
    for c in sorted(set(NAMES) - seen):
        bad(r, NAMES[c], "%s is not read" % NAMES[c])


def truth(q, v):
    """True/False/None: the boolean v on the path"""
    if v.op == "c":
        return bool(v.a[0])
    if v.op == "not":
        b = truth(q, v.a[0])
        return None if b is None else not b
    b = decided(q, v)
    if b is not None:
        return b
    if not q.copy().assume(v):
        return False
    if not q.copy().assume(neg(v)):
        return True
    return None


def contains(set_, k):
    return mk("pure", "BitSet::contains", set_, k)


def under(q, facts_):
    """the path with these facts, or None"""
    t = q.copy()
    for f, v in facts_:
        if truth(t, f) is (not v) or not t.assume(f if v else neg(f)):
            return None
    return t


def entry_of(q, root, path, k):
    """(the entry k at the end of the round, its attributes)"""
    b, sg = chain(q, root, path)
    if len(sg) == 1 and sg[0][0] == "one" and sg[0][1] is None:
        return sg[0][2]
    return q.load(root, path + (("i", k),))


def stamps(r, q, c, ts):
    """all-or-bits, external, then a value for each entry that has one"""
    nm = NAMES[c]
    if len(ts) < 3 or ts[0].name != "read_all_or_bits" or ts[1].name != "read_u8" or ts[2].kind != "loop" or len(ts) > 3:
        return bad(r, nm, "the record is not read as set, external byte and values: %s" % ts[:4])
    n = uncast(ts[0].vals[1])
    if not (n is uncast(r.n) or q.entails(eqi(n, uncast(r.n)))):
        return bad(r, nm, "the set is read with %s bits, not one per entry" % pp(n)[:60], ts[0].where)
    _, segs = chain(q, *r.cell)
    if len(segs) != 1 or segs[0][0] != "loop" or segs[0][1].x != ts[2].ev.x:
        return bad(r, nm, "the values are not stored by the loop that reads them")
    le_, (root, path) = segs[0][1], segs[0][2]
    h = [h for h in le_.havoc if (h[0], h[1]) == (root, path)][0]
    its = rounds(r.ps, q, le_, r.n) or rounds(r.ps, q, le_, length(h[3]))
    if its is None:
        return bad(r, nm, "the values are not read in one loop over all entries, in order", ts[2].where)
    flag, val = FLAG[c], VALUE[c]
    for s, k, st in its:
        e0 = at_start(s, le_, root, path + (("i", k),))
        e1 = s.load(root, path + (("i", k),))
        tk = tokens(s, r.root, st)
        for b in (False, True):
            t = under(s, [(contains(ts[0].value, k), b)])
            if t is None:
                continue
            if truth(t, field(e1, flag)) is not b:
                bad(r, nm, "%s of entry %s is %s where its bit is %s" % (flag, pp(k), pp(field(e1, flag))[:60], "set" if b else "clear"))
            if bool(tk) is not b:
                bad(r, nm, "a value is read exactly for the entries whose bit is set: not so", ts[2].where)
            elif b:
                v = uncast(field(e1, val))
                v = cvals(v)[0] if cname(v) in ("Into::into", "From::from") else v
                if len(tk) != 1 or tk[0].name not in READ[c]:
                    bad(r, nm, "a value is read by %s, not one %s" % (tk, "/".join(READ[c])), tk[0].where)
                elif uncast(v) is not uncast(tk[0].value):
                    bad(r, nm, "%s gets %s, not what was read" % (val, pp(v)[:80]), tk[0].where)
        others(r, nm, s, e0, e1, (flag, val))
    if any(x[0] == "one" and not (x[1] is k or s.entails(eqi(x[1], k))) for s, k, st in its for x in chain(s, root, path)[1]):
        bad(r, nm, "another entry than the one whose bit it is gets the value")
    r.rule.ok("reader-properties", nm)


def others(r, nm, q, e0, e1, mine):
    for a in ATTRS:
        if a not in mine and field(e1, a) is not field(e0, a):
            bad(r, nm, "%s changes %s of the entry" % (nm, a))


def named(r, q, ts):
    """a name for each entry, in order: the units up to the next zero"""
    nm = NAMES[0x11]
    _, segs = chain(q, *r.cell)
    if len(segs) != 1 or segs[0][0] != "loop":
        return bad(r, nm, "the names are not stored in one loop")
    le_, (root, path) = segs[0][1], segs[0][2]
    h = [h for h in le_.havoc if (h[0], h[1]) == (root, path)][0]
    its = [(s, start_of(s, le_)) for s in r.ps if s.kind == "loop" and s.x["loop"] == le_.x]
    its = [(s, st) for s, st in its if compatible(q, s)] or its
    done = False
    for x in le_.havoc:
        if len(x) != 4 or x[2].op != "lv" or not isc(x[3], 0):
            continue
        if not all(isc(sub(s.load(x[0], x[1]), x[2]), 1) for s, st in its):
            continue
        if all(index_is(s, root, path, x[2]) for s, st in its):
            done = True
            if not q.entails(eqi(x[2], length(h[3]))) and not q.entails(eqi(x[2], uncast(r.n))):
                bad(r, nm, "the number of names is not compared with the number of entries")
            break
    if not done:
        rs = rounds(r.ps, q, le_, length(h[3])) or rounds(r.ps, q, le_, r.n)
        if rs is None or not all(index_is(s, root, path, k) for s, k, st in rs):
            return bad(r, nm, "the names are not stored one per entry, in order")
    for s, st in its:
        sg = [x for x in chain(s, root, path)[1]]
        k = sg[0][1]
        e0 = at_start(s, le_, root, path + (("i", k),))
        e1 = s.load(root, path + (("i", k),))
        others(r, nm, s, e0, e1, ("name",))
        units(r, s, field(e1, "name"), st)
    r.rule.ok("reader-properties", nm)


def index_is(s, root, path, k):
    sg = chain(s, root, path)[1]
    return len(sg) == 1 and sg[0][0] == "one" and sg[0][1] is not None and (sg[0][1] is k or s.entails(eqi(sg[0][1], k)))


def units(r, s, name, st):
    """the name is made of the 16-bit little-endian units read in this round, up to one that is 0"""
    nm = NAMES[0x11]
    w = name
    while w.op in ("f", "v"):
        w = w.a[0]
    if not (cname(w) or "").startswith("String::from_utf16"):
        return bad(r, nm, "a name is %s, not the decoded units" % pp(name)[:80])
    buf = cvals(w)[0]
    b, segs = chain_of(s, buf)
    if length(b) is not ZERO and not s.entails(eq0(length(b))):
        return bad(r, nm, "the units of a name are added to those of the one before")
    if len(segs) != 1 or segs[0][0] != "loop":
        return bad(r, nm, "the units of a name are not read in one loop")
    le_, cell = segs[0][1], segs[0][2]
    i = max(i for i, e in enumerate(s.ev) if e is le_)
    for e in s.ev[i:]:
        if e.kind == "call" and e.name == "num::from_le_bytes" and truth(s, eq0(e.ret)) is not True:
            bad(r, nm, "a name ends at a unit that may be other than 0")
    for t in r.ps:
        if t.kind != "loop" or t.x["loop"] != le_.x:
            continue
        sg = chain(t, *cell)[1]
        rd = [e for e in t.ev[start_of(t, le_):] if e.kind == "call" and e.name.split("::")[-1] == "read_exact"]
        dec = [e for e in t.ev[start_of(t, le_):] if e.kind == "call" and e.name == "num::from_le_bytes"]
        if len(sg) != 1 or sg[0][0] != "one" or len(rd) != 1 or not sg[0][2] in [e.ret for e in dec]:
            bad(r, nm, "each round reads one unit and appends it")
        elif truth(t, eq0(sg[0][2])) is not False:
            bad(r, nm, "a unit is appended that may be the 0 at the end of the name")


def final(r, p, le_, its, root, path):
    """what each entry is, from the sets"""
    lvs = {c: x[2] for c, x in r.sets.items()}
    ss = field(vfield(p.load(AR, (("f", "sub_streams_info"),)), "Some"), "0")
    hs = [h for h in le_.havoc if len(h) == 4 and isc(h[3], 0) and h[2].op == "lv"]
    roles = {}
    for q, k, st in its:
        e0 = at_start(q, le_, root, path + (("i", k),))
        e1 = entry_of(q, root, path, k)
        some_ = {c: q.variant_of(v) for c, v in lvs.items()}
        S = {c: field(vfield(v, "Some"), "0") for c, v in lvs.items()}
        val = {a: field(e1, a) for a in ATTRS}
        for a in ("name", "creation_date", "access_date", "last_modified_date", "windows_attributes", "has_creation_date", "has_access_date",
                  "has_last_modified_date", "has_windows_attributes"):
            if val[a] is not field(e0, a):
                bad(r, "entries", "%s of an entry is changed after it was read" % a)
        for e in (False, True):
            if e and some_[0x0E] == "None":
                continue
            t = q if some_[0x0E] == "None" else under(q, [(contains(S[0x0E], k), e)])
            if t is None:
                continue
            if truth(t, val["has_stream"]) is not (not e):
                bad(r, "entries", "has_stream of an entry %s kEmptyStream is %s" % ("in" if e else "not in", pp(val["has_stream"])[:80]))
                continue
            step(r, q, t, hs, not e, roles)
            if not e:
                c1 = of_counter(val["crc"], field(ss, "crcs"))
                if c1 is None or uncast(val["size"]) is not elem(field(ss, "unpack_sizes"), c1) or val["has_crc"] is not contains(field(ss, "has_crc"), c1):
                    bad(r, "entries", "checksum, its presence and size of an entry with a stream are not those of one and the same sub-stream: %s / %s / %s" % (
                        pp(val["crc"])[-60:], pp(val["has_crc"])[-60:], pp(val["size"])[-60:]))
                else:
                    roles.setdefault("full", set()).add(c1)
                for a in ("is_directory", "is_anti_item"):
                    if truth(t, val[a]) is not False:
                        bad(r, "entries", "%s of an entry with a stream is %s" % (a, pp(val[a])[:80]))
            else:
                for a, c, inv in (("is_directory", 0x0F, True), ("is_anti_item", 0x10, False)):
                    if some_[c] == "None":
                        if truth(t, val[a]) is not inv:
                            bad(r, "entries", "%s of an entry without a stream is %s where the archive has no %s" % (a, pp(val[a])[:60], NAMES[c]))
                        continue
                    cs = [x for x in list(subterms(val[a])) + [y for f in q.facts for y in subterms(f)] if cname(x) == "BitSet::contains" and cvals(x)[0] is S[c]]
                    if not cs:
                        bad(r, "entries", "%s of an entry without a stream does not depend on %s" % (a, NAMES[c]))
                        continue
                    idx = cvals(cs[0])[1]
                    roles.setdefault("empty", set()).add(idx)
                    for b in (False, True):
                        u = under(t, [(contains(S[c], idx), b)])
                        if u is not None and truth(u, val[a]) is not (b is not inv):
                            bad(r, "entries", "%s of an entry without a stream is %s where its bit in %s is %s" % (a, pp(val[a])[:60], NAMES[c], b))
                for a in ("has_crc",):
                    if truth(t, val[a]) is not False:
                        bad(r, "entries", "%s of an entry without a stream is %s" % (a, pp(val[a])[:80]))
                if not isc(val["size"], 0):
                    bad(r, "entries", "the size of an entry without a stream is %s" % pp(val["size"])[:80])
            r.rule.ok("entry-rounds", "stream" if not e else "empty")
    for role, full in (("full", True), ("empty", False)):
        for idx in roles.get(role, ()):
            if idx not in [h[2] for h in hs]:
                bad(r, "entries", "the position among the entries %s a stream is %s, not a count of them" % ("with" if full else "without", pp(idx)[:60]))
            elif ("miscounts", idx, full) in roles:
                bad(r, "entries", "the count of the entries %s a stream does not go up by one for exactly those" % ("with" if full else "without"))


def of_counter(v, seq):
    v = uncast(v)
    return v.a[1] if v.op == "e" and v.a[0] is seq else None


def step(r, q, t, hs, full, roles):
    """notes the counters this round does not advance as a count of the entries with (without) a stream would"""
    for h in hs:
        d = sub(q.load(h[0], h[1]), h[2])
        for role in (True, False):
            if not isc(d, 1 if role is full else 0):
                roles[("miscounts", h[2], role)] = True
