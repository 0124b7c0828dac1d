"""Extracted files are complete before success, and times restored faithfully."""
from sa.terms import *
from sa import flow
from sa.prov import *
from checks.hgram import oks, const_of
from checks.c09 import truth
from checks.c19 import loc

TECHNIQUE = "typestate of the extracted file (created, filled, flushed, stamped) by abstract interpretation of MIR"
RULE = """On every path on which the default extraction function succeeds: a directory exists or was created without error; a file was
created once, at the destination; unless the entry is known to be empty, everything the entry reader gives was copied into it, by a
copy that ended without error or by a loop that writes exactly what each read gave and ends when a read gives nothing; a buffering
writer was flushed or taken apart without error after the last write; and only then the times are set: each of access, modification
and creation time to the entry's own value exactly when the archive records it. Nothing is written, and no time is set, otherwise."""
NOTE = RULE + """ That the entry reader itself delivers the recorded bytes or an error is decided by C02; what the callback of a user does is the
user's. Whether the platform stores a time at full resolution is outside."""
LEVEL = "other"
CREATE = ("File::create", "File::create_new", "OpenOptions::open")
BUF = ("BufWriter::new", "BufWriter::with_capacity", "LineWriter::new")
COPY = ("copy::copy", "io::copy")
WRITE = ("Write::write_all", "Write::write", "Write::write_fmt", "Write::write_vectored")
CONV = ("Into::into", "From::from", "FileTime::from_system_time", "NtTime::to_system_time", "Clone::clone", "Into<SystemTime>::into", "ops::function::FnOnce::call_once")
DATES = ("access_date", "last_modified_date", "creation_date")
ENTRY = mk("D", mk("p", "entry"))


def check(rule, P):
    ks = [k for k in P.bodies if k.endswith("::default_entry_extract_fn") and "#" not in k]
    if len(ks) != 1:
        rule.bad("default_entry_extract_fn", "src/de_funcs.rs", "the default extraction function is not there")
        return
    eng = flow.Engine(P)
    ps = eng.run(ks[0])
    rule.ran(eng, ps, ks[0])
    b = P.bodies[ks[0]]
    names = [b.locals[i][1] for i in range(1, b.argc + 1)]
    for p in oks(ps):
        Path(rule, P, ps, p, ks[0], names).judge()
    for k, n in (("directory", 1), ("complete", 8), ("time", 24)):
        rule.floor(k, n)


class Path:
    def __init__(self, rule, P, ps, p, key, names):
        self.rule, self.P, self.ps, self.p, self.key = rule, P, ps, p, key
        self.entry, self.reader, self.dest = names
        self.where = loc(P, key)

    def bad(self, key, where, text):
        self.rule.bad("default_entry_extract_fn:" + key, where or self.where, text)

    def value(self, v, p=None):
        """what a variable was before the calls that were given it by reference, and the loops, changed it"""
        p = p or self.p
        for _ in range(50):
            if v.op == "out":
                e = [e for e in p.ev if e.ret is v.a[0]]
                if not e:
                    return v
                v = e[0].vals[v.a[1]]
            elif v.op == "lv":
                i = p.x.get(("init", v))
                if i is None:
                    return v
                v = i
            elif v.op in ("oute", "lve"):
                v = v.a[0]
            elif v.op == "call" and v.a[0] in ("Read::by_ref", "Write::by_ref"):
                v = v.a[2][0]
            elif v.op == "call" and v.a[0] in ("BufReader::new", "BufReader::with_capacity"):
                v = v.a[2][-1]
            elif v.op == "r" and v.a[1].op == "L":
                v = p.load(v.a[1], v.a[2])
            else:
                return v
        return v

    def is_file(self, v, p=None):
        """("file" | "buf", create event) of a writer"""
        v = self.value(v, p)
        if v.op == "call" and v.a[0] in BUF:
            f = self.is_file(v.a[2][-1], p)
            return f and ("buf", f[1])
        if v.op == "f" and v.a[0].op == "v" and v.a[0].a[1] == "Ok":
            c = v.a[0].a[0]
            if c.op == "call" and c.a[0] in CREATE:
                return "file", c
            if c.op == "call" and c.a[0] in ("BufWriter::into_inner", "LineWriter::into_inner"):
                f = self.is_file(c.a[2][0], p)
                return f and ("file", f[1])
        if v.op == "d":
            v = v.a[0]
        if v.op == "call" and v.a[0] in ("BufWriter::get_ref", "BufWriter::get_mut"):
            f = self.is_file(v.a[2][0], p)
            return f and ("file", f[1])
        if v.op == "r":
            return self.is_file(flow_deref(v, p or self.p), p)
        return None

    def is_reader(self, v, p=None):
        v = self.value(v, p)
        root = mk("D", mk("p", self.reader))
        return v is mk("d", mk("p", self.reader)) or v is mk("p", self.reader) or v.op == "r" and v.a[1] is root or origin(v) == (root, ())

    def attr(self, name):
        return self.p.load(mk("D", mk("p", self.entry)), (("f", name),))

    def judge(self):
        p, rule = self.p, self.rule
        d = truth(p, self.attr("is_directory"))
        created = [e for e in p.ev if e.kind == "call" and e.name in CREATE]
        if d is None and not created:
            self.bad("directory", None, "success with nothing created, for an entry that may be a file")
            return
        if not created:
            mk_ = [e for e in p.ev if e.kind == "call" and e.name in ("fs::create_dir_all", "fs::create_dir") and self.is_dest(e.vals[-1], e.args[-1]) and p.variant_of(e.ret) == "Ok"]
            there = [e for e in p.ev if e.kind == "call" and e.name in ("Path::exists", "Path::is_dir") and self.is_dest(e.vals[0], e.args[0]) and truth(p, e.ret)]
            if d and (mk_ or there):
                rule.ok("directory", "%s" % (mk_ or there)[0].where)
            else:
                self.bad("directory", None, "success although neither the directory is there nor one was created")
            return
        if len(created) != 1 or not self.is_dest(created[0].vals[-1], created[0].args[-1]) or p.variant_of(created[0].ret) != "Ok":
            self.bad("create", created[0].where, "the file is not created exactly once at the destination")
            return
        if d:
            self.bad("create", created[0].where, "a file is created for a directory")
            return
        self.fill(created[0])

    def is_dest(self, v, a):
        root = mk("D", mk("p", self.dest))
        for x in (v, a):
            while x.op == "call" and x.a[0] in ("AsRef::as_ref", "Deref::deref", "PathBuf::as_path", "Path::new", "Clone::clone", "Path::to_path_buf", "ToOwned::to_owned", "From::from", "PathBuf::from", "AsRef<Path>::as_ref"):
                x = x.a[2][0]
            if x is mk("p", self.dest) or x is mk("d", mk("p", self.dest)) or x.op == "r" and x.a[1] is root and not x.a[2]:
                return True
        return False

    def fill(self, cr):
        p, rule = self.p, self.rule
        full = pending = written = stamped = False
        times = None
        for e in p.ev:
            if e.kind == "loop":
                w = self.loop(e)
                if w is None:
                    continue
                buf, okk = w
                written, full, pending = True, okk, pending or buf
                if stamped:
                    self.bad("order", e.where, "the file is written after its times were set")
                continue
            if e.kind == "drop" and pending and e.vals and (self.is_file(e.vals[0]) or ("",))[0] == "buf":
                self.bad("flush", e.where, "the buffering writer is dropped with data that was not flushed")
                return
            if e.kind != "call":
                continue
            if e.name in COPY:
                t = self.is_file(e.vals[1])
                if t is None:
                    continue
                if not self.is_reader(e.vals[0]):
                    self.bad("content", e.where, "what is copied into the file is %s, not the entry reader" % pp(e.vals[0])[:120])
                    return
                if stamped:
                    self.bad("order", e.where, "the file is written after its times were set")
                written = True
                full = full or p.variant_of(e.ret) == "Ok"
                pending = pending or t[0] == "buf"
            elif e.name in WRITE and self.is_file(e.vals[0]):
                t = self.is_file(e.vals[0])
                if not self.piece(p, e):
                    self.bad("content", e.where, "%s is written into the file, which the entry reader did not give" % pp(e.vals[1])[:120])
                    return
                if stamped:
                    self.bad("order", e.where, "the file is written after its times were set")
                written, pending = True, pending or t[0] == "buf"
            elif e.name in ("Write::flush", "BufWriter::flush", "BufWriter::into_inner", "LineWriter::into_inner") and self.is_file(e.vals[0]) and p.variant_of(e.ret) == "Ok":
                pending = False
            elif e.name in ("File::set_len", "Seek::seek", "Seek::rewind", "mem::forget", "BufWriter::into_parts") and e.vals and self.is_file(e.vals[0]):
                if e.name == "File::set_len" and not written:
                    continue
                self.bad("content", e.where, "%s on the file" % e.name)
                return
            elif e.name.endswith("set_file_handle_times"):
                if not self.is_file(e.vals[0]):
                    self.bad("times", e.where, "times are set on %s, not on the file created" % pp(e.vals[0])[:100])
                    continue
                if written and (pending or not full):
                    self.bad("order", e.where, "the times are set before the last byte of the file was written")
                stamped, times = True, e
            elif "set_" in e.name.rsplit("::", 1)[-1] and e.name.rsplit("::", 1)[-1].endswith(("times", "mtime", "atime", "modified", "handle_times")):
                self.bad("times", e.where, "times are set by %s, which this rule does not know" % e.name)
        if pending:
            self.bad("flush", None, "success with data in the buffering writer that was not flushed")
            return
        size = self.attr("size")
        hs = truth(p, self.attr("has_stream"))
        none = p.entails(le(size, ZERO)) or hs is False
        if not full and not none:
            self.bad("complete", None, "success although not everything the entry reader gives was written to the file")
            return
        rule.ok("complete" if full else "empty", self.where)
        if times is None and not full:
            return
        self.times(times)

    def times(self, e):
        p = self.p
        for i, n in enumerate(DATES):
            has = truth(p, self.attr("has_" + n))
            a = e.vals[1 + i] if e is not None else NONE
            v = p.variant_of(a)
            where = e.where if e is not None else self.where
            if v == "None":
                if has is not False:
                    self.bad("time:" + n, where, "success without setting the %s the archive may record" % n)
                    continue
            elif v == "Some":
                if not has:
                    self.bad("time:" + n, where, "the %s is set although the archive may not record it" % n)
                    continue
                x = project_some(p, a)
                got = self.stamp(x)
                if got != n:
                    self.bad("time:" + n, where, "the %s of the file is set to %s" % (n, pp(x)[:120]))
                    continue
            else:
                self.bad("time:" + n, where, "it is not known whether the %s is set" % n)
                continue
            self.rule.ok("time", "%s %s" % (where, n))

    def stamp(self, x):
        while x.op == "call" and x.a[0] in CONV or x.op == "pure" and x.a[0] in CONV:
            x = cvals(x)[0]
        for n in DATES:
            if x is self.attr(n):
                return n
        return pp(x)

    # ------------------------------------------------- copying by hand

    def piece(self, q, e):
        """the data written is the part of the buffer the last read filled"""
        rd = [x for x in q.ev[:q.ev.index(e)] if x.kind == "call" and x.name == "Read::read" and self.is_reader(x.vals[0], q)]
        if not rd or e.name != "Write::write_all":
            return False
        n = field(vfield(rd[-1].ret, "Ok"), "0")
        a, b = q.val(e.args[1]) if e.args[1].op != "r" else e.args[1], rd[-1].args[1]
        if a.op != "r" or b.op != "r" or a.a[1] is not b.a[1]:
            return False
        if len(a.a[2]) != len(b.a[2]) + 1 or a.a[2][:len(b.a[2])] != b.a[2]:
            return False
        sl = a.a[2][-1]
        if sl[0] != "sl" or not isc(sl[1], 0):
            return False
        return q.entails(eqi(sl[2], n))

    def carries(self, q, w, r):
        a, b = w.args[1], r.args[1]
        if a.op != "r" or b.op != "r" or a.a[1] is not b.a[1] or a.a[2][:-1] != b.a[2]:
            return False
        sl = a.a[2][-1]
        return sl[0] == "sl" and isc(sl[1], 0) and self.carried(q, sl[2]) is not None

    def carried(self, q, lv):
        """the read whose count a loop variable holds: the one before the loop, and in each round the last"""
        if lv.op != "lv":
            return None
        def read_of(v):
            return v.a[0].a[0] if v.op == "f" and v.a[1] == "0" and v.a[0].op == "v" and v.a[0].a[1] == "Ok" and v.a[0].a[0].op == "call" and v.a[0].a[0].a[0] == "Read::read" else None
        i = q.x.get(("init", lv))
        r = read_of(i) if i is not None else None
        if r is None:
            return None
        cut = max([j for j, e in enumerate(q.ev) if e.kind == "loop" and any(h[2] is lv for h in e.havoc)], default=None)
        before = [e for e in q.ev[:cut] if e.kind == "call" and e.ret is r and self.is_reader(e.vals[0], q)]
        if cut is None or not before:
            return None
        for t in self.ps:
            if t.kind == "loop" and t.x["loop"] == q.ev[cut].x:
                rr = [e for e in t.ev[max(j for j, e in enumerate(t.ev) if e.kind == "loop" and e.x == q.ev[cut].x):] if e.kind == "call" and e.name == "Read::read"]
                v = read_of(t.load(*lvctx(lv)[2:]))
                if not rr or v is not rr[-1].ret or rr[-1].args[1] is not before[0].args[1] or not self.is_reader(rr[-1].vals[0], t):
                    return None
        return r

    def loop(self, le_):
        """(buffered, complete) of a loop that writes to the file; None when it does not"""
        p = self.p
        rounds = [q for q in self.ps if q.kind == "loop" and q.x["loop"] == le_.x]
        buf = None
        okk = True
        for q in rounds:
            i = max(j for j, e in enumerate(q.ev) if e.kind == "loop" and e.x == le_.x)
            evs = q.ev[i + 1:]
            ws = [e for e in evs if e.kind == "call" and e.name in WRITE and self.is_file(e.vals[0], q)]
            rs = [e for e in evs if e.kind == "call" and e.name.startswith("Read::") and self.is_reader(e.vals[0], q)]
            if not ws and not rs:
                continue
            if len(ws) == 1 and len(rs) == 1 and rs[0].name == "Read::read" and self.piece(q, ws[0]):
                buf = bool(buf) or self.is_file(ws[0].vals[0], q)[0] == "buf"
                continue
            if len(rs) == 1 and not ws and rs[0].name == "Read::read" and q.variant_of(rs[0].ret) == "Err":
                continue
            if len(ws) == 1 and len(rs) == 1 and rs[0].name == "Read::read" and evs.index(ws[0]) < evs.index(rs[0]) and ws[0].name == "Write::write_all" and self.carries(q, ws[0], rs[0]):
                buf = bool(buf) or self.is_file(ws[0].vals[0], q)[0] == "buf"
                continue
            okk = False
            buf = bool(buf)
        if buf is None:
            return None
        after = [e for e in p.ev[p.ev.index(le_) + 1:] if e.kind == "call" and e.name == "Read::read" and self.is_reader(e.vals[0])]
        ended = after and p.variant_of(after[0].ret) == "Ok" and p.entails(eq0(field(vfield(after[0].ret, "Ok"), "0")))
        if not ended and not any(h[2].op == "lv" and p.entails(eq0(h[2])) and self.carried(p, h[2]) is not None for h in le_.havoc):
            okk = False
        return buf, okk


def flow_deref(v, p):
    return p.load(v.a[1], v.a[2])


def project_some(p, a):
    return p.val(field(vfield(a, "Some"), "0"))
