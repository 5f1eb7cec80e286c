"""Histories: scripts of API calls for the driver (see driver/driver.c for the operations)."""
import re, struct


def hx(s):
    return (s if isinstance(s, bytes) else s.encode("latin1")).hex()


REG = re.compile(rb"(?i)(?<![a-z0-9_$])(reg)([0-9][0-9])(?![a-z0-9_])")


def other_registers(h, rng):
    """Rename the registers used in a history, preferring those with special numbers."""
    if rng.random() < .3:
        return
    new, used = {}, set()
    def name(m):
        n = m.group(2)
        if n not in new:
            k = rng.choice([0, 99, 9, 10, 50, rng.randrange(100), rng.randrange(100)])
            while k in used:
                k = (k + 1) % 100
            used.add(k)
            new[n] = b"%02d" % k
        return m.group(1) + new[n]
    for i, o in enumerate(h.ops):
        if o[0] in "PR":
            head, _, text = o.rpartition(" ")
            t = bytes.fromhex(text) if len(o.split()) == 4 else b""
            u = REG.sub(name, t)
            if u != t:
                h.ops[i] = head + " " + u.hex()


def halves(x):
    hi, lo = struct.unpack(">ii", struct.pack(">d", x))
    return hi, lo


class Hist:
    def __init__(self, variant="double", note=""):
        self.ops = []
        self.variant = variant
        self.note = note
        self.nslot = 0
        self.ncode = 0
        self.slots = {}          # (context, lower-case name) -> slot
        self.codes = {}          # live code -> context
        self.ctxs = {}           # live context -> (g, r)
        self.bufs = set()
        self.programs = []

    def op(self, *a):
        self.ops.append(" ".join(str(x) for x in a))

    def buf(self, b):
        self.op("B", b)
        self.bufs.add(b)

    def dbuf(self, b):
        self.op("b", b)
        self.bufs.discard(b)

    def ctx(self, c=1, g=0, r=0, fail=0):
        self.op("C", c, g, r, *([fail] if fail else []))
        self.ctxs[c] = (g, r)
        return c

    def dctx(self, c):
        self.op("c", c)
        self.ctxs.pop(c, None)
        for k in [k for k in self.slots if k[0] == c]:
            del self.slots[k]

    def reg(self, c, name):
        s = self.nslot
        self.nslot += 1
        self.op("R", s, c, hx(name))
        self.slots.setdefault((c, name.lower()), s)
        return s

    def var(self, c, name):
        k = (c, name.lower())
        return self.slots[k] if k in self.slots else self.reg(c, name)

    def set(self, slot, x):
        self.op("W", slot, *halves(x))

    def comp(self, c, text):
        k = self.ncode
        self.ncode += 1
        self.op("P", k, c, hx(text))
        self.codes[k] = c
        self.programs.append(text if isinstance(text, str) else text.decode("latin1"))
        return k

    def run(self, k, tol=0, rnd=()):
        self.op("X", k, tol, len(rnd), *rnd)

    def do(self, c, text, times=1, tol=0, rnd=()):
        k = self.comp(c, text)
        for _ in range(times):
            self.run(k, tol, rnd)
        return k

    def dcode(self, k):
        self.op("p", k)
        self.codes.pop(k, None)

    def free(self, c):
        self.op("F", c)

    def reset(self, c):
        self.op("Z", c)

    def gram(self, c, b):
        self.op("S", c, b)

    def err(self, c):
        self.op("E", c)

    def scan(self, w, c, lo, hi):
        self.op("M", w, c, lo, hi)

    def dglob(self):
        self.op("G")

    def fault(self, on):
        self.op("A", 1 if on else 0)

    def drawn(self, k, top):
        self.op("Q", k, *halves(top))

    def deep(self, kind, c, slot, n):
        self.op("H", kind, c, slot, n)

    def threads(self, parts, schedule, compilations=False, points=False, functions=False):
        """Run operations concurrently.  parts: functions adding the operations of one thread each; schedule: pairs
        of a thread and the point in it (see driver.c) at which the next pair's thread continues;
        compilations: whether they can be preempted too; points: the schedule counts points of synchronisation; functions: triples with functions entered or left and
        instructions."""
        at = len(self.ops)
        counts = []
        for f in parts:
            n = len(self.ops)
            f()
            counts.append(len(self.ops) - n)
        y = ["v" if functions else "s" if points else "Y" if compilations else "y", len(parts)] + counts + [len(schedule)] + [x for s in schedule for x in s]
        self.ops.insert(at, " ".join(str(x) for x in y))

    def end(self, rng=None):
        """Destroy everything in some legal order."""
        items = [("c", c) for c in self.ctxs] + [("p", k) for k in self.codes]
        if rng:
            rng.shuffle(items)
        for kind, x in items:
            self.dctx(x) if kind == "c" else self.dcode(x)
        for b in sorted(self.bufs):
            self.dbuf(b)
        self.dglob()
        self.op("D")
        return self

    def weight(self):
        return 3 + sum(1 + len(o) // 40 for o in self.ops)
