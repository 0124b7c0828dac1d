#!/usr/bin/env python3
"""check.py <PROPERTY>: decide one property on /repo's current tree."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from sa import facts, report


def main(pid):
    rule = report.Rule(pid)
    text = ""
    try:
        mod = importlib.import_module("checks." + pid.lower())
        text = " ".join(mod.RULE.split())
        if getattr(mod, "NEEDS_FACTS", True):
            mod.check(rule, facts.program())
        else:
            mod.check(rule, None)
        level = getattr(mod, "LEVEL", "other")
    except facts.FactsError as e:
        rule.bad("analysis", "-", "the current tree could not be analysed: %s" % e)
        level = "other"
    except Exception as e:
        tb = traceback.extract_tb(sys.exc_info()[2])
        loc = "; ".join("%s:%d" % (os.path.basename(t.filename), t.lineno) for t in tb[-4:])
        rule.bad("analysis", "-", "the rule could not decide the property on this tree (%s: %s at %s)" % (type(e).__name__, e, loc))
        if os.environ.get("SA_DEBUG"):
            traceback.print_exc()
        level = "other"
    return report.finish(rule, text, level)


if __name__ == "__main__":
    if sys.argv[1] == "--setup":
        try:
            facts.program()
        except facts.FactsError as e:
            print("setup: the current tree could not be analysed:", e)
        sys.exit(0)
    sys.exit(main(sys.argv[1]))
