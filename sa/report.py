"""Rule results -> verdict, evidence, exit status."""
import json, os, sys, time, re
from . import facts

VERIF = facts.VERIF


EVID = os.environ.get("SA_EVID", os.path.join(VERIF, "evidence"))


class Rule:
    def __init__(self, pid):
        self.pid = pid
        self.viol = []          # (key, where, message)
        self.inst = {}          # kind -> list of descriptions
        self.floors = {}
        self.notes = []
        self.assumptions = []
        self.fns = set()
        self.paths = 0
        self.t0 = time.time()

    def ok(self, kind, desc):
        self.inst.setdefault(kind, []).append(str(desc))

    def bad(self, key, where, msg):
        """key: stable identity of the violated instance (no line numbers)."""
        if (key, msg) not in [(k, m) for k, _, m in self.viol]:
            self.viol.append((key, where, msg))

    def floor(self, kind, n):
        self.floors[kind] = n

    def note(self, s):
        self.notes.append(s)

    def ran(self, engine, paths, key=None):
        self.fns |= engine.visited_fns
        if key:
            self.fns.add(key)
        self.paths += len(paths)


def known():
    """known_findings.txt: `known: property=<id> key=<key> :: text` / `fixed: ...`"""
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=(.+?) :: (.*)$", l.strip())
            if m:
                out[(m.group(1), m.group(2))] = m.group(3)
    return out


def finish(rule, rule_text, level="other"):
    pid = rule.pid
    for k, n in rule.floors.items():
        got = len(rule.inst.get(k, []))
        if got < n:
            rule.bad("floor:" + k, "-", "only %d instance(s) of `%s` found, %d were confirmed by hand: the anchor of the rule is gone" % (got, k, n))
    kn = known()
    new, listed = [], []
    for v in rule.viol:
        if (pid, v[0]) in kn:
            listed.append(v)
        else:
            new.append(v)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    samples = []
    for k, l in rule.inst.items():
        for d in l[:3]:
            samples.append("%s: %s" % (k, d))
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": level,
        "coverage": {
            "explanation": rule_text + " | Analysed on this run: %d function bodies, %d dataflow paths, %d rule instances (%s)." % (
                len(rule.fns), rule.paths, sum(len(l) for l in rule.inst.values()),
                ", ".join("%s=%d" % (k, len(l)) for k, l in sorted(rule.inst.items()))),
            "functions_analysed": len(rule.fns), "dataflow_paths": rule.paths,
            "instances": {k: len(l) for k, l in sorted(rule.inst.items())},
            "floors": rule.floors,
            "functions": sorted(rule.fns)[:60],
            "samples": samples[:40],
            "notes": rule.notes[:40],
            "known_findings": [v[0] for v in listed],
        },
        "assumptions": rule.assumptions, "wall_s": round(time.time() - rule.t0, 2), "violations": len(new),
    }
    os.makedirs(EVID, exist_ok=True)
    json.dump(ev, open(os.path.join(EVID, pid + ".json"), "w"), indent=1)
    for v in listed:
        print("KNOWN-FINDING: property=%s %s" % (pid, kn[(pid, v[0])]))
    print("%s: %d instances, %d functions, %d paths, %.1fs" % (pid, sum(len(l) for l in rule.inst.values()), len(rule.fns), rule.paths, time.time() - rule.t0))
    if new:
        rp = os.path.join(EVID, pid + ".violation.txt")
        with open(rp, "w") as f:
            for k, w, m in new:
                f.write("property: %s\nkey: %s\nwhere: %s\n%s\n\n" % (pid, k, w, m))
        for k, w, m in new[:12]:
            print("  [%s] %s\n     %s" % (k, w, m))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    return 0
