"""Decides one property: python3 harness/check.py ID [--tier quick|thorough] [--seed N] [--replay FILE]

Exit 0: the property held on everything explored; 1 and a VIOLATION line: it is broken; 2: the check itself failed."""
import argparse, json, os, random, sys, time, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, runner, profiles, models
from hist import Hist, other_registers

OUT = os.path.join(build.VERIF, "out")
EVIDENCE = os.path.join(build.VERIF, "evidence")
QUICK_SCALE = {"L02": 2, "L15": 1.5, "M02": 2, "M03": 2, "A02": 1.5, "N02": 1.5, "L06": 2, "C01": 2, "C02": 1, "C03": .9, "C04": .5}
THOROUGH_S = 600
READINGS = [dict(strict=s, rounded=r) for s in (False, True) for r in (False, True)]


def findings(prop):
    with open(os.path.join(build.VERIF, "known_findings.json")) as f:
        return [x for x in json.load(f)["findings"] if x["property"] == prop]


def script_hist(ops, variant="double"):
    h = Hist(variant)
    h.ops = list(ops)
    return h


def known(prop, res):
    """Run the listed findings; returns (lines, histories failing in another way)."""
    lines, other = [], []
    for f in findings(prop):
        h = script_hist(f["script"], f.get("variant", "double"))
        r = runner.run_shard(h.variant, [("finding", h)], **f["reading"])
        res.add_counts(r)
        if not r.rejects:
            continue
        _, n, event, why = r.rejects[0]
        if event == f["event"] and f["says"] in why:
            lines.append("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
        else:
            other.append((h, n, event, why))
    return lines, other


def confirmed(h):
    """The mismatch, if the history is again rejected, under every reading of the documentation."""
    return (confirm_some([h]) or [None])[0]


def confirm_some(hs):
    """The mismatches of those of the histories which are confirmed."""
    res = {}
    for reading in READINGS:
        rs = {id(r[0]): r for r in runner.run(hs, **reading).rejects}
        hs = [h for h in hs if id(h) in rs]
        for h in hs:
            res.setdefault(id(h), rs[id(h)])
    return [res[id(h)] for h in hs]


def shrink(h, budget=float(os.environ.get("EEL_SHRINK_S", "12"))):
    """Drop operations while the history is still rejected."""
    t0 = time.time()
    ops = list(h.ops)
    if any(o[0] in "Yysv" for o in ops):
        return h               # the schedule would no longer fit
    need = {"B": 1, "C": 1}
    n = max(1, len(ops) // 4)
    while n >= 1 and time.time() - t0 < budget:
        i, changed = 0, False
        while i < len(ops) and time.time() - t0 < budget:
            cut = [o for o in ops[i:i + n] if o[0] in "XWEMFZQ" or (n == 1 and o[0] in "PR")]
            if not cut:
                i += n
                continue
            dropped = [j for j in range(i, min(i + n, len(ops))) if ops[j][0] in "XWEMFZQ"]
            cand = [o for j, o in enumerate(ops) if j not in dropped]
            if not dropped:
                i += n
                continue
            g = script_hist(cand, h.variant)
            try:
                r = runner.run_shard(g.variant, [("shrink", g)], timeout=60)
            except Exception:
                r = None
            if r and r.rejects:
                ops, changed = cand, True
            else:
                i += n
        if n == 1:
            break
        n //= 2
    return script_hist(ops, h.variant)


def readable(op):
    t = op.split()
    try:
        if t[0] in ("P", "R"):
            return "%s %r" % (" ".join(t[:3]), bytes.fromhex(t[3] if len(t) > 3 else "").decode("latin1"))
    except ValueError:
        pass
    return op


def write_replay(prop, seed, kind, data):
    os.makedirs(OUT, exist_ok=True)
    path = os.path.join(OUT, "%s-%d-%s.json" % (prop, seed, kind))
    with open(path, "w") as f:
        json.dump(data, f, indent=1)
    return path


def explore(prop, seed, tier, res):
    """Yields confirmed mismatches of the generated histories."""
    if prop not in profiles.PROFILES:
        return None
    scale = QUICK_SCALE.get(prop, 3)
    t0, rnd = time.time(), 0
    while True:
        rng = random.Random("%s %d %d" % (prop, seed, rnd))
        hs = profiles.PROFILES[prop](rng, scale if tier == "quick" else 3 * scale)
        if prop not in ("V01", "V02", "L09"):
            for h in hs:
                other_registers(h, rng)
        for h in hs:
            if rng.random() < .25:
                h.ops.insert(0, "U %d" % rng.choice([0, 0, 33, 90]))
            if rng.random() < (.3 if prop in ("L07", "L08", "V01") else .15 if prop == "L09" else .06):
                h.ops.insert(0, "L " + rng.choice(list(build.LOCALES)))
        if rnd == 0:
            hs += models.histories(prop, tier, seed, res)
        if not res.samples:
            res.samples = [{"variant": h.variant, "history": [readable(o) for o in h.ops[:40]]} for h in hs[:2]]
        r = runner.run(hs)
        res.add_counts(r)
        for part in ([r.rejects[:8], r.rejects[8:40]] if r.rejects else []):
            c = confirm_some([x[0] for x in part])
            if c:
                return c[0]
        rnd += 1
        if tier == "quick" or time.time() - t0 > THOROUGH_S:
            return None


class Total(runner.Result):
    def __init__(self):
        super().__init__()
        self.samples = []
        self.models = []

    def add_counts(self, o):
        keep, self_rej = o.rejects, self.rejects
        o.rejects = []
        self.add(o)
        o.rejects = keep


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    a = ap.parse_args()
    prop, t0 = a.property, time.time()
    runner.judge(prop)
    if a.replay:
        d = json.load(open(a.replay))
        r = runner.run_shard(d["variant"], [("replay", script_hist(d["script"], d["variant"]))])
        for x in r.rejects:
            print("event %d (%s): %s" % x[1:])
        return 1 if r.rejects else 0
    res = Total()
    violation = None
    lines, other = known(prop, res)
    if other:
        h, n, event, why = other[0]
        violation = write_replay(prop, a.seed, "finding", {"property": prop, "variant": h.variant, "script": h.ops,
                                                           "readable": [readable(o) for o in h.ops],
                                                           "event": event, "number": n, "why": why})
    if not violation:
        v = explore(prop, a.seed, a.tier, res)
        if v:
            h, n, event, why = v
            g = shrink(h)
            violation = write_replay(prop, a.seed, "trace", {
                "property": prop, "variant": g.variant, "script": g.ops, "readable": [readable(o) for o in g.ops],
                "full_script": h.ops, "event": event, "number": n, "why": why})
            print("mismatch in event %d (%s): %s" % (n, event, why[:600]))
    evidence = {
        "property": prop, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": a.seed,
        "level": "model_checking",
        "coverage": {"states": res.states, "transitions": res.transitions,
                     "traces_validated_against_impl": res.histories, "trace_events": res.events,
                     "events_by_kind": res.kinds, "histories_cut_short_as_unspecified": len(res.skips),
                     "models": res.models, "samples": res.samples or res.models[:2]},
        "assumptions": ["the specification's arithmetic is Java's IEEE arithmetic (java/F64.java)",
                        "AddressSanitizer reports memory errors of the code executed"],
        "wall_s": round(time.time() - t0, 2), "violations": 1 if violation else 0}
    os.makedirs(EVIDENCE, exist_ok=True)
    with open(os.path.join(EVIDENCE, prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    for line in lines:
        print(line)
    if violation:
        print("VIOLATION property=%s replay=%s" % (prop, violation))
        return 1
    print("%s held: %d histories, %d events, %d specification states, %.1f s" % (
        prop, res.histories, res.events, res.states, time.time() - t0))
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Exception:
        traceback.print_exc()
        sys.exit(2)
