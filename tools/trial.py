"""Runs one profile directly: trial.py ID [scale] [seed]; for development."""
import random, sys, time, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
import profiles, runner
pid, scale, seed = sys.argv[1], float((sys.argv[2:] + ["1"])[0]), int((sys.argv[3:] + ["1", "1"])[1])
t = time.time()
hs = profiles.PROFILES[pid](random.Random("%s-%d" % (pid, seed)), scale)
r = runner.run(hs)
print(pid, "hist", len(hs), "events", r.events, "rej", len(r.rejects), "skip", len(r.skips), "tlc %.1f driver %.1f wall %.1f" % (r.tlc_s, r.driver_s, time.time() - t))
for h, n, e, why in r.rejects[:5]:
    print(n, e, why)
    print("\n".join(h.ops))
