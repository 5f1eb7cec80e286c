"""Executes histories on the library and validates the recorded traces with TLC."""
import json, os, re, resource, subprocess, tempfile, time, shutil
from concurrent.futures import ThreadPoolExecutor
import build, tlc

CPUS = os.cpu_count() or 4
ASAN_ENV = {"ASAN_OPTIONS": "detect_leaks=0:max_malloc_fill_size=1048576:allocator_may_return_null=1:"
                            "quarantine_size_mb=32:malloc_context_size=3:symbolize=0:detect_stack_use_after_return=0"}
REJECT = re.compile(r'<<\s*"REJECT",\s*(\d+),\s*"([^"]*)",\s*"([^"]*)",\s*(.*?)>>\s*(?=\n(?:<<|[A-Z0-9]|\s*$))', re.S)
SKIP = re.compile(r'<<\s*"SKIP",\s*(\d+),\s*"([^"]*)",\s*"([^"]*)"\s*>>')


class MachineryError(Exception):
    pass


def big_stack():
    """Instrumented code needs several times more stack than the library built normally."""
    hard = resource.getrlimit(resource.RLIMIT_STACK)[1]
    want = 64 << 20
    resource.setrlimit(resource.RLIMIT_STACK, (want if hard == resource.RLIM_INFINITY else min(want, hard), hard))


# What is judged besides the results: only by the checks of the properties about it.
JUDGE = {"Lock": True, "Output": True}


def judge(prop):
    JUDGE["Lock"] = prop in ("C01", "C02", "C03", "F01", "F02")
    JUDGE["Output"] = prop == "L07"


def cfg_file(d, single=False, shim=False, strict=False, rounded=False, speclo=3000):
    p = os.path.join(d, "trace.cfg")
    with open(p, "w") as f:
        f.write("SPECIFICATION TraceSpec\nPOSTCONDITION TraceDone\nCHECK_DEADLOCK FALSE\nCONSTANTS\n"
                "  Cells = 8388608\n  MaxLoop = 1048576\n  SpecLoop = %d\n  Single = %s\n  Shim = %s\n  Strict = %s\n"
                "  RoundIndex = %s\n" % (speclo, str(single).upper(), str(shim).upper(), str(strict).upper(),
                                         str(rounded).upper()))
        for k, v in JUDGE.items():
            f.write("  Judge%s = %s\n" % (k, str(v).upper()))
    return p


class Result:
    def __init__(self):
        self.rejects = []        # (history, event number, event name, why)
        self.skips = []          # hids
        self.histories = 0
        self.events = 0
        self.states = 0
        self.transitions = 0
        self.kinds = {}
        self.tlc_s = 0.0
        self.driver_s = 0.0

    def add(self, o):
        self.rejects += o.rejects
        self.skips += o.skips
        self.histories += o.histories
        self.events += o.events
        self.states += o.states
        self.transitions += o.transitions
        self.tlc_s += o.tlc_s
        self.driver_s += o.driver_s
        for k, n in o.kinds.items():
            self.kinds[k] = self.kinds.get(k, 0) + n


def run_shard(variant, hs, strict=False, rounded=False, timeout=700, keep=None, deep=True):
    """hs: list of (hid, Hist)."""
    os.makedirs(tlc.WORK, exist_ok=True)
    d = tempfile.mkdtemp(prefix="run.", dir=tlc.WORK)
    res = Result()
    try:
        script, trace = os.path.join(d, "script"), os.path.join(d, "trace.ndjson")
        with open(script, "w") as f:
            for hid, h in hs:
                f.write("N %s\n%s\n" % (hid, "\n".join(h.ops)))
        exe = build.driver(variant)
        env = dict(os.environ)
        env.update(ASAN_ENV)
        env["LOCPATH"] = build.locales()
        t0 = time.time()
        p = subprocess.run([exe, script, trace], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                           preexec_fn=big_stack if deep else None)
        res.driver_s = time.time() - t0
        if p.returncode:
            raise MachineryError("driver failed: %s" % p.stdout.decode(errors="replace")[-2000:])
        events = []
        with open(trace) as f:
            for line in f:
                e = line[6:line.index('"', 6)]
                events.append(e)
                res.kinds[e] = res.kinds.get(e, 0) + 1
        t0 = time.time()
        cfg = cfg_file(d, variant == "float", variant == "shim", strict, rounded)
        job = tlc.Job("EelTrace", cfg, {"TRACE": trace}, heap="3g", timeout=timeout)
        rc, out = job.wait()
        res.tlc_s = time.time() - t0
        if keep:
            shutil.copy(trace, keep + ".ndjson")
            open(keep + ".tlc", "w").write(out)
        m = re.search(r'<<\s*"DONE",\s*(\d+),\s*(\d+)\s*>>', out)
        if not m or m.group(1) != m.group(2) or rc != 0:
            bad = os.path.join(build.BUILD, "failed-trace")
            shutil.rmtree(bad, ignore_errors=True)
            shutil.copytree(d, bad, dirs_exist_ok=True)
            open(os.path.join(bad, "out"), "w").write(out)
            raise MachineryError("TLC could not process the trace (%s): rc %d\n%s" % (
                m.groups() if m else "-", rc, out[-1500:]))
        by = dict(hs)
        for m in REJECT.finditer(out):
            res.rejects.append((by[m.group(2)], int(m.group(1)), m.group(3), " ".join(m.group(4).split())))
        if out.count('"REJECT"') != len(res.rejects):
            raise MachineryError("cannot parse TLC's output:\n" + out[-3000:])
        res.skips = [(m.group(2), m.group(3)) for m in SKIP.finditer(out)]
        res.histories = len(hs)
        res.events = len(events)
        g, s = tlc.counts(out)
        res.states, res.transitions = s, max(0, g - 1)
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(hists, strict=False, rounded=False, jobs=None, timeout=700):
    """Validate histories of any variants; returns a Result."""
    jobs = jobs or CPUS
    by_variant = {}
    for i, h in enumerate(hists):
        by_variant.setdefault(h.variant, []).append(("%s%d" % (h.variant[0], i), h))
    for v in by_variant:
        build.driver(v)
    build.java()
    build.locales()
    shards = []
    total = sum(h.weight() for h in hists) or 1
    for v, hs in by_variant.items():
        w = sum(h.weight() for _, h in hs)
        n = max(1, min(len(hs), max(round(jobs * w / total), w // 30000)))
        parts = [[0, []] for _ in range(n)]
        for hid, h in sorted(hs, key=lambda x: -x[1].weight()):
            p = min(parts, key=lambda q: q[0])
            p[0] += h.weight()
            p[1].append((hid, h))
        shards += [(v, p[1]) for p in parts if p[1]]
    res = Result()
    with ThreadPoolExecutor(jobs) as ex:
        for r in ex.map(lambda s: run_shard(s[0], s[1], strict, rounded, timeout), shards):
            res.add(r)
    return res


def confirm(h):
    """Run one history again; the reject tuple, or None if it is accepted now."""
    r = run_shard(h.variant, [("again", h)])
    return r.rejects[0] if r.rejects else None
