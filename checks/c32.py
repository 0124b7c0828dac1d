"""A failed push leaves the writer consistent."""
from sa.terms import *
from sa import flow
from sa.prov import *
from checks import wstream as w
from checks.c10 import out_ev

TECHNIQUE = "error-path postcondition analysis (abstract interpretation of MIR)"
RULE = """On every error path of push_archive_entry and push_archive_entries on which an encoder chain was started, the last
operation on the output is a seek back to the position the output had before the chain was created, and the list of
entries, the packed-stream table and the block table are as before the call; on every path without a chain that fails
they are unchanged too. On every successful path the output is not moved. Packed streams are addressed by the sum of
the recorded sizes before them, so any other outcome makes later entries decode from the wrong place."""
NOTE = RULE + " Error paths include every failing codec, source and output operation; panics are outside the rule."
FNS = ("push_archive_entry", "push_archive_entries")


def check(rule, P):
    cell = (w.SELF, (("f", "output"),))
    for fn in FNS:
        key, ps = w.run(P, rule, fn)
        if key is None:
            rule.bad("missing:" + fn, fn, "function not found")
            continue
        where = "%s (%s)" % (key, P.bodies[key].file())
        n = 0
        for p in ps:
            if p.kind != "return":
                continue
            cw = [i for i, e in enumerate(p.ev) if e.kind == "call" and e.name == w.CREATE]
            evs = out_ev(p, cell)
            seeks = [(i, e) for i, e in evs if e.name.startswith("Seek::") and e.name not in ("Seek::stream_position", "Seek::stream_len")]
            if p.variant_of(p.ret) == "Ok":
                if seeks:
                    rule.bad(fn + ":moved", seeks[0][1].where, "a successful push moves the output")
                continue
            for f in ("files", "pack_info", "unpack_info"):
                if p.load(w.SELF, (("f", f),)) is not project(p.init(w.SELF), (("f", f),)):
                    rule.bad("%s:%s" % (fn, f), where, "a failed push leaves a record in `%s`: %s" % (f, pp(p.load(w.SELF, (("f", f),)))[:200]))
            if not cw:
                continue
            n += 1
            pos = [field(vfield(e.ret, "Ok"), "0") for i, e in evs if e.name == "Seek::stream_position" and i < cw[0]]
            last = seeks[-1][1] if seeks and seeks[-1][0] > cw[0] else None
            good = last is not None and evs[-1][1] is last and last.name == "Seek::seek" and variant(last.args[1]) == "Start" \
                and any(p.entails(eqi(field(last.args[1], "0"), x)) for x in pos)
            if not good:
                fail = [e for e in p.ev if e.kind == "call" and e.ret is not None and p.variant_of(e.ret) == "Err"]
                rule.bad(fn + ":restore", where, "when %s fails the output is left behind partially written data; the next stream is recorded at the wrong place" % (fail[-1].name if fail else "the push"))
        if n:
            rule.ok("error-path", "%s: %d failing paths after the chain was started" % (fn, n))
    rule.floor("error-path", 2)
