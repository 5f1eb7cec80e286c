"""Negative controls: deliberately wrong rules in the models must violate the laws TLC checks."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
import models

CONTROLS = [("MC_Prog", "Rule", r, dict(Group='"prune"', MaxSize=8, Numbers="<- NumberTable"), ["SPECIFICATION Spec", "INVARIANT Laws"])
            for r in ("last flag", "list flag", "last change")]
CONTROLS += [("MC_Lock", "Alg", r, {k: v for k, v in models.LOCK.items() if k != "Alg"}, models.LOCK_CHECKS) for r in ("norecheck", "nolock", "leave", "unlocked")]
CONTROLS += [("MC_Mem", "How", r, {k: v for k, v in models.MEM.items() if k != "How"}, ["SPECIFICATION Spec", "INVARIANT Same"]) for r in ("front", "untrimmed")]
bad = 0
for module, const, rule, consts, lines in CONTROLS:
    try:
        models.run_tlc(module, dict(models.BASE if module == "MC_Prog" else {}, **consts, **{const: '"%s"' % rule}), None, lines, workers=os.cpu_count())
        print("NOT DETECTED", module, rule)
        bad += 1
    except models.ModelError as e:
        print("detected" if any("rc %d" % rc in str(e) for rc in (12, 13, 14, 75)) else "ERROR " + str(e)[:300], module, rule)
sys.exit(bad)
