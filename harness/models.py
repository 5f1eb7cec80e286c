"""Exhaustive models of parts of the specification (spec/MC_*.tla), and the histories generated from them.

Every model is checked by TLC; what TLC prints while it does so (transitions, programs, ...) becomes histories which are
executed on the library and validated like all others."""
import hashlib, json, os, pickle, random, re
from concurrent.futures import ThreadPoolExecutor
import build, tlc
from gen import recase
from hist import Hist
CALLS = set("if _if _and _or loop while _not bnot _equal equal _noteq _below below _above above _beleq _aboeq _set assign _add _sub _mul _div _mod _addop _subop _mulop _divop _modop _orop _andop _powop sin cos tan asin acos atan atan2 sqr sqrt pow exp _neg log log10 abs min max sign rand floor int ceil invsqrt sigmoid band bor exec2 exec3 _mem megabuf _gmem gmegabuf freembuf memcpy memset gmem".split())

CACHE = os.path.join(build.BUILD, "models")


class ModelError(Exception):
    pass


BASE = {"Cells": "8388608", "MaxLoop": "1048576", "SpecLoop": "100", "Single": "FALSE", "Strict": "FALSE", "RoundIndex": "FALSE"}


def run_tlc(module, consts, inputs=None, lines=(), workers=4, timeout=800, heap="6g"):
    """Checks a model; returns (printed tuples as text lines, states, distinct states).  Cached by content."""
    srcs = sorted(os.path.join(tlc.SPEC, f) for f in os.listdir(tlc.SPEC) if f.endswith(".tla"))
    srcs.append(os.path.join(build.VERIF, "java", "F64.java"))
    cfg = "\n".join(list(lines) + ["CHECK_DEADLOCK FALSE", "CONSTANTS"] + ["  %s %s" % (c[0], c[1] if str(c[1]).startswith("<-") else "= %s" % c[1]) for c in sorted(consts.items())]) + "\n"
    data = "".join(json.dumps(x) + "\n" for x in (inputs or []))
    key = build.digest(srcs, module + cfg + data)
    os.makedirs(CACHE, exist_ok=True)
    os.makedirs(tlc.WORK, exist_ok=True)
    path = os.path.join(CACHE, key + ".pickle")
    lock = build.locked("model-" + key)
    try:
        if os.path.exists(path):
            with open(path, "rb") as f:
                return pickle.load(f)
        base = os.path.join(tlc.WORK, "model-" + key)
        with open(base + ".cfg", "w") as f:
            f.write(cfg)
        with open(base + ".in", "w") as f:
            f.write(data)
        rc, out = tlc.Job(module, base + ".cfg", {"MCIN": base + ".in"}, workers, heap, timeout=timeout).wait()
        os.unlink(base + ".cfg")
        os.unlink(base + ".in")
        if rc != 0 or "No error has been found" not in out:
            keep = os.path.join(build.BUILD, "failed-model")
            with open(keep, "w") as f:
                f.write(out)
            tail = [l for l in out.splitlines() if not l.startswith(("<<", '"', "Loading"))]
            raise ModelError("%s: TLC rc %d\n%s" % (module, rc, "\n".join(tail[-40:])))
        printed = [l for l in out.splitlines() if l.startswith(("<<", '"'))]
        g, s = tlc.counts(out)
        with open(path + ".tmp", "wb") as f:
            pickle.dump((printed, g, s), f)
        os.rename(path + ".tmp", path)
        return printed, g, s
    finally:
        lock.close()


# ------------------------------------------------------------------------------------------------ life cycles
VARS = ["a=1;reg00=1", "a+2*reg00", "a=("]
MEMS = ["megabuf(0)=1;gmem[0]=1", "megabuf(0)+2*gmem[0]"]
API_MODELS = {       # name: programs, constants
    "vars": (VARS, dict(MaxCtx=2, MaxBuf=0, MaxReg=1, MaxCode=1, MaxGens=1, WithShim="FALSE")),
    "mem": (MEMS, dict(MaxCtx=2, MaxBuf=1, MaxReg=0, MaxCode=1, MaxGens=2, WithShim="FALSE")),
    "shim": (MEMS, dict(MaxCtx=2, MaxBuf=1, MaxReg=0, MaxCode=1, MaxGens=1, WithShim="TRUE")),
    "svars": (VARS, dict(MaxCtx=2, MaxBuf=0, MaxReg=0, MaxCode=2, MaxGens=1, WithShim="TRUE")),
    "vars2": (VARS, dict(MaxCtx=2, MaxBuf=0, MaxReg=1, MaxCode=2, MaxGens=1, WithShim="FALSE")),
    "mem2": (MEMS, dict(MaxCtx=2, MaxBuf=1, MaxReg=0, MaxCode=2, MaxGens=2, WithShim="FALSE")),
}
API_CHECKS = ["VIEW View", "SPECIFICATION Spec", "CONSTRAINT Bounded", "ACTION_CONSTRAINT Log", "INVARIANT NoGarbage", "INVARIANT Sane"] + [
    "PROPERTY " + p for p in ("ResetExact", "FreeExact", "GlobalExact", "FailedCompile", "CompileQuiet", "ExecuteLocal", "NewQuiet",
                              "FreshGlobal", "DestroyLocal")]
EDGE = re.compile(r'<<"E", (-?\d+), (-?\d+), (-?\d+), (-?\d+), <<"(\w)"((?:, -?\d+)*)>>>>')


def api_graph(name):
    progs, consts = API_MODELS[name]
    printed, g, s = run_tlc("MC_Api", dict(BASE, **consts), [list(p.encode()) for p in progs], API_CHECKS)
    ids, out = {}, []
    for line in printed:
        m = EDGE.match(line)
        if not m:
            continue
        a, b = (m.group(1), m.group(2)), (m.group(3), m.group(4))
        for x in (a, b):
            if x not in ids:
                ids[x] = len(ids)
                out.append([])
        op = (m.group(5),) + tuple(int(x) for x in m.group(6).split(",")[1:])
        out[ids[a]].append((op, ids[b]))
    return progs, [sorted(set(o)) for o in out], g, s


def api_paths(out, rng, want, length, limit):
    """Paths from the initial state (number 0) which together use the transitions want(op), or as many as fit."""
    todo = [[i for i, (op, _) in enumerate(o) if want(op)] for o in out]
    for t in todo:
        rng.shuffle(t)
    left = sum(map(len, todo))
    paths, total = [], 0
    while left and total < limit:
        at, path = 0, []
        while len(path) < length:
            if todo[at]:
                i = todo[at].pop()
                left -= 1
                path.append(out[at][i][0])
                at = out[at][i][1]
                continue
            # nearest state with something left to do
            seen, queue, found = {at: None}, [at], None
            for x in queue:
                if todo[x]:
                    found = x
                    break
                if len(seen) > 3000:
                    break
                es = list(out[x])
                rng.shuffle(es)
                for op, y in es:
                    if y not in seen:
                        seen[y] = (x, op)
                        queue.append(y)
            if found is None:
                break
            back = []
            while found != at:
                x, op = seen[found]
                back.append((op, found))
                found = x
            for op, y in reversed(back):
                path.append(op)
                at = y
        if not path:
            break
        paths.append(path)
        total += len(path)
    return paths, left


def api_history(path, progs, rng, variant, observe=.25):
    h = Hist(variant)
    codes = {}
    for op in path:
        o = op[0]
        if o == "B":
            h.buf(op[1])
        elif o == "b":
            h.dbuf(op[1])
        elif o == "C":
            h.ctx(op[1], op[2], op[3])
            if rng.random() < .5:
                h.reg(op[1], "a")
            if rng.random() < .2:
                h.reg(op[1], rng.choice(["reg00", "REG00"]))
        elif o == "c":
            h.dctx(op[1])
        elif o == "G":
            h.dglob()
        elif o == "P":
            codes[op[1]] = h.comp(op[2], progs[op[3] - 1])
            if progs[op[3] - 1] == "a=(":
                del h.codes[codes[op[1]]]
        elif o == "X":
            h.run(codes[op[1]])
        elif o == "p":
            h.dcode(codes[op[1]])
        elif o == "F":
            h.free(op[1])
        elif o == "Z":
            h.reset(op[1])
        elif o == "S":
            h.gram(op[1], op[2])
        if o in "FZGcXS" and rng.random() < observe:
            for c in h.ctxs:
                h.scan("m", c, 0, 2)
                h.scan("g", c, 0, 2)
    for c in h.ctxs:
        h.scan("m", c, 0, 2)
        h.scan("g", c, 0, 2)
    return h.end(rng)


def api_hists(name, ops, rng, limit, res, variant="double"):
    progs, out, g, s = api_graph(name)
    n = sum(len(o) for o in out)
    paths, left = api_paths(out, rng, lambda op: ops is None or op[0] in ops, 40, limit)
    wanted = sum(1 for o in out for op, _ in o if ops is None or op[0] in ops)
    res.models.append({"model": "MC_Api/" + name, "states": s, "transitions": g, "transitions_of_interest": wanted,
                       "replayed": wanted - left, "paths": len(paths), "path_operations": sum(map(len, paths))})
    res.states += s
    res.transitions += g
    return [api_history(p, progs, rng, variant) for p in paths]


# property: [(model in the quick tier, the one in the thorough tier, operations to cover, variant)]
API_USES = {
    "A01": [("mem", "mem2", "cpbG", "double"), ("vars", "vars2", "cp", "double")],
    "A02": [("shim", "shim", None, "shim"), ("svars", "svars", "ZXP", "shim")],
    "M04": [("mem", "mem2", "CX", "double"), ("vars", "vars2", "CX", "double")],
    "M05": [("mem", "mem2", "FG", "double")],
    "V03": [("vars", "vars2", "Z", "double")],
    "L10": [("vars", "vars2", "P", "double")],
    "L14": [("vars", "vars2", "XPp", "double"), ("mem", "mem2", "XPp", "double")],
}


# ------------------------------------------------------------------------------------------------ all small programs
PROG_VALUES = [{}, dict(a=3, b=-2, c=2, d=2.5, f=5, g=4), dict(a=1, b=2, c=-1, d=7, f=3, g=-4)]
# property: [(vocabulary, size in the quick tier, in the thorough tier, spellings of each program)]
PROG_USES = {
    "L01": [("ctrl", 5, 6, 1), ("mem", 5, 6, 1), ("args", 6, 7, 1)],
    "L02": [("list", 5, 6, 1), ("fold", 4, 5, 1), ("prune", 7, 9, 1), ("exec", 5, 6, 1)],
    "L03": [("leak", 4, 5, 1), ("asg", 4, 5, 1)],
    "L04": [("ctrl", 5, 7, 1)],
    "L05": [("loop", 5, 6, 1), ("down", 5, 6, 1), ("inc", 5, 6, 1)],
    "L06": [("ops", 5, 6, 2)],
    "L12": [("asg", 5, 6, 1)],
    "L13": [("bool", 4, 5, 2)],
    "M02": [("mem", 5, 6, 1)],
    "M03": [("mem", 5, 6, 1)],
}
PROG_LIMIT = {"quick": 2400, "thorough": 60000}


def programs(group, size):
    """All programs up to a size: [(start states in which the outcome is specified, spellings)]."""
    consts = dict(BASE, Group='"%s"' % group, MaxSize=size, Rule='"code"', Numbers="<- NumberTable")
    printed, g, s = run_tlc("MC_Prog", consts, None, ["SPECIFICATION Spec", "INVARIANT Laws"], workers=os.cpu_count() or 4)
    res = []
    for line in printed:
        if line.startswith('"T'):
            fits, texts = line[2:5], line[6:-1].split("~")[:-1]
            res.append(([i for i in range(3) if fits[i] == "1"], texts))
    res.sort(key=lambda x: (len(x[1][0]), x[1][0]))
    return res, g, s


def prog_hists(group, size, spellings, rng, limit, res, variant="double"):
    progs, g, s = programs(group, size)
    total = len(progs)
    useful = [p for p in progs if p[0]]
    if len(useful) > limit:
        useful = [useful[i] for i in sorted(rng.sample(range(len(useful)), limit))]
    hs = []
    for i in range(0, len(useful), 40):
        h = Hist(variant)
        h.ctx(1)
        for fits, texts in useful[i:i + 40]:
            texts = sorted(set(texts))
            rng.shuffle(texts)
            names = [n for n in "abcdfg" if re.search(r"(?<![a-z])%s(?![a-z])" % n, texts[0])]
            memory = any(w in texts[0] for w in ("[", "mem", "gmem", "_mem"))
            for n, text in enumerate(texts[:spellings]):
                k = h.comp(1, text)
                for j in fits if n == 0 else fits[-1:]:
                    for v in names:
                        h.set(h.var(1, v), PROG_VALUES[j].get(v, 0))
                    if memory:
                        h.free(1)
                    h.run(k)
                    if memory and rng.random() < .2:
                        h.scan(rng.choice("mg"), 1, 0, 8)
                h.dcode(k)
        hs.append(h.end(rng))
    res.models.append({"model": "MC_Prog/%s/%d" % (group, size), "states": s, "transitions": g, "programs": total,
                       "specified": len([p for p in progs if p[0]]), "replayed": len(useful)})
    res.states += s
    res.transitions += g
    return hs


# ------------------------------------------------------------------------------------------------ all token strings
PARSE_USES = {     # property: [(vocabulary, length in the quick tier, in the thorough tier)]
    "L09": [("calls", 7, 9), ("index", 6, 7), ("cond", 6, 8), ("signs", 5, 6), ("mixed", 4, 5)],
    "L10": [("calls", 7, 8), ("index", 5, 7), ("cond", 6, 7), ("signs", 5, 6), ("mixed", 4, 5)],
    "L07": [("mixed", 4, 5), ("cond", 6, 7)],
}
PARSE_LIMIT = {"quick": 20000, "thorough": 150000}
GAPS = [" ", " ", "\n", "\t", "  ", " \n ", "\r\n", "/**/", "/*x*/", "/*\n*/", "//y\n", "/*/*/", " // ; )\n", "\n\n"]


def token_strings(group, length):
    printed, g, s = run_tlc("MC_Parse", dict(Group='"%s"' % group, MaxLen=length), None,
                            ["SPECIFICATION Spec", "INVARIANT Laws"], workers=os.cpu_count() or 4)
    res = sorted((line[2] == "1", line[5:-1].split()) for line in printed if line.startswith('"S'))
    return res, g, s


def spelled(tokens, rng, comments):
    text = rng.choice(GAPS) if comments and rng.random() < .2 else ""
    for i, t in enumerate(tokens):
        if i:
            glue = t in "(),;[]?:" or tokens[i - 1] in "(),;[]?:"
            text += rng.choice(GAPS) if comments else "" if glue and rng.random() < .7 else rng.choice(GAPS[:7])
        text += rng.choice([t, t, t.upper(), t.capitalize()]) if comments and t.isalnum() else t
    return text + (rng.choice(GAPS) if rng.random() < .2 else "")


def parse_hists(prop, group, length, rng, limit, res):
    strings, g, s = token_strings(group, length)
    used = strings if len(strings) <= limit else [strings[i] for i in sorted(rng.sample(range(len(strings)), limit))]
    hs = []
    for i in range(0, len(used), 100):
        h = Hist()
        h.ctx(1)
        for ok, tokens in used[i:i + 100]:
            text = spelled(tokens, rng, prop == "L07" or rng.random() < .2)
            if not ok and rng.random() < .2:
                text += rng.choice([" a", " )", " 1 2", " ;", " (", " *", " #"])
            k = h.comp(1, text)
            if rng.random() < .1:
                h.err(1)
            h.ops.append("p %d" % k)
            h.codes.pop(k)
        hs.append(h.end(rng))
    res.models.append({"model": "MC_Parse/%s/%d" % (group, length), "states": s, "transitions": g, "strings": len(strings),
                       "programs": sum(ok for ok, _ in strings), "replayed": len(used)})
    res.states += s
    res.transitions += g
    return hs


# ------------------------------------------------------------------------------------------------ all short texts
LEX_USES = {
    "L07": [("comment", 6, 8), ("golden", 5, 6), ("name", 5, 6)],
    "L08": [("number", 5, 6), ("dollar", 5, 6), ("golden", 5, 6)],
    "L09": [("op", 5, 6), ("op2", 5, 6), ("name", 5, 6), ("byte", 4, 5), ("dollar", 4, 5), ("comment", 6, 7)],
    "L10": [("comment", 6, 8), ("op", 5, 6), ("byte", 4, 5), ("number", 4, 5)],
}
LEX_LIMIT = {"quick": 8000, "thorough": 120000}


def lex_hists(prop, group, length, rng, limit, res):
    printed, g, s = run_tlc("MC_Lex", dict(Group='"%s"' % group, MaxLen=length), None,
                            ["SPECIFICATION Spec", "INVARIANT Laws"], workers=os.cpu_count() or 4)
    texts = sorted((line[2] == "1", bytes(int(c) for c in line[4:-1].split())) for line in printed if line.startswith('"C'))
    used = texts if len(texts) <= limit else [texts[i] for i in sorted(rng.sample(range(len(texts)), limit))]
    rng.shuffle(used)
    hs = []
    for i in range(0, len(used), 80):
        h = Hist()
        h.ctx(1)
        h.set(h.reg(1, "a"), 3)
        for ok, text in used[i:i + 80]:
            k = h.comp(1, text)
            if ok:
                h.run(k)
            h.ops.append("p %d" % k)
            h.codes.pop(k)
        hs.append(h.end(rng))
    res.models.append({"model": "MC_Lex/%s/%d" % (group, length), "states": s, "transitions": g, "texts": len(texts),
                       "programs": sum(ok for ok, _ in texts), "replayed": len(used)})
    res.states += s
    res.transitions += g
    return hs


# ------------------------------------------------------------------------------------------------ all memory operations
MEM = dict(Cells=4, RoundIndex="FALSE", Block=2, Depth=2, Below=1, High=4, Most=5, How='"code"')
MEM_USES = {     # property: (operations of interest, models in the quick tier, in the thorough tier)
    "M01": ("w", [dict(Depth=2, High=3, Most=4)], [dict(), dict(Cells=3, Depth=3, High=2, Most=3)]),
    "M02": ("s", [dict()], [dict(Below=2, High=5, Most=7), dict(Cells=3, Depth=3, High=2, Most=3)]),
    "M03": ("m", [dict()], [dict(Below=2, High=5, Most=7), dict(Cells=3, Depth=3, High=2, Most=3), dict(Cells=6, Block=3, Depth=1, Below=7, High=12, Most=14)]),
}
MEM_LIMIT = {"quick": 1500, "thorough": 60000}
MEM_OPS = re.compile(r'<<\\"(\w)\\", (-?\d+)(?:, (-?\d+), (-?\d+))?>>')


def mem_history(seqs, cells, rng, variant="double"):
    h = Hist(variant)
    h.ctx(1)
    b, n = h.reg(1, "b"), h.reg(1, "n")
    fill = h.comp(1, "i=0;loop(n,megabuf(b+i)=i+1;i+=1)")
    for full, ops in seqs:
        base = rng.choice([0, 65536 - cells // 2, 8388608 - cells])
        other = base if rng.random() < .6 else rng.choice([0, 65536 - cells // 2, 131072 - cells // 2, 131072 - 1, 8388608 - cells, 70000])
        h.free(1)
        h.set(n, cells)
        if full:
            for x in {base, other}:
                h.set(b, x)
                h.run(fill)
        text = []
        for o in ops:
            x = [int(v) for v in o[1:] if v]
            if o[0] == "w":
                text.append(rng.choice(["megabuf(%d)=%s", "%d[]=%s", "assign(megabuf(%d),%s)"]) % (base + x[0], "7"))
            elif o[0] == "s":
                text.append("memset(%d,%d,%d)" % (base + x[0], x[1], x[2]))
            else:
                text.append("memcpy(%d,%d,%d)" % (base + x[0], other + x[1], x[2]))
        h.dcode(h.do(1, ";".join(text)))
        for x in sorted({base, other}):
            h.scan("m", 1, max(0, x - 3), min(8388608, x + cells + 3))
        if rng.random() < .1:
            for x in (0, 65536, 131072, 8388608 - 6):
                h.scan("m", 1, max(0, x - 4), x + 6)
    return h.end(rng)


def mem_hists(prop, tier, rng, res):
    if prop not in MEM_USES:
        return []
    kind, quick, deep = MEM_USES[prop]
    hs = []
    todo = quick if tier == "quick" else deep
    for consts in todo:
        c = dict(MEM, **consts)
        printed, g, s = run_tlc("MC_Mem", c, None, ["SPECIFICATION Spec", "INVARIANT Same", "INVARIANT Ranges", "ACTION_CONSTRAINT Log"],
                                workers=os.cpu_count() or 4)
        seqs = sorted((line[4:9] == "TRUE,", MEM_OPS.findall(line)) for line in printed if line.startswith('"O'))
        seqs = [x for x in seqs if any(o[0] == kind for o in x[1])]
        limit = MEM_LIMIT[tier] // len(todo)
        used = seqs if len(seqs) <= limit else [seqs[i] for i in sorted(rng.sample(range(len(seqs)), limit))]
        res.models.append({"model": "MC_Mem %s" % " ".join("%s=%s" % x for x in sorted(c.items())), "states": s, "transitions": g,
                           "sequences": len(seqs), "replayed": len(used)})
        res.states += s
        res.transitions += g
        rng.shuffle(used)
        for i in range(0, len(used), 25):
            hs.append(mem_history(used[i:i + 25], c["Cells"], rng))
    return hs


# ------------------------------------------------------------------------------------------------ all names
NAME_OTHERS = "{95, 97, 49}"
NAME_USES = {     # property: (group, (depth, digits) in the quick tier, in the thorough tier)
    "V01": [("short", (2, "{}"), (2, "{}")), ("register", (1, "{48, 57}"), (1, "48..57"))],
    "V02": [("register", (1, "{48, 57}"), (1, "48..57")), ("register", (2, "{}"), (2, "{57}"))],
    "L09": [("function", (1, "{}"), (1, "{}"))],
}
NAME_LIMIT = {"quick": 2400, "thorough": 8000}


def name_hists(prop, tier, rng, res):
    hs = []
    for group, quick, deep in NAME_USES.get(prop, []):
        depth, digits = quick if tier == "quick" else deep
        if group == "register" and digits == "{}":
            continue
        printed, g, s = run_tlc("MC_Name", dict(BASE, Group='"%s"' % group, Depth=depth, Digits=digits, Others=NAME_OTHERS), None,
                                ["SPECIFICATION Spec", "INVARIANT Laws", "VIEW View"], workers=os.cpu_count() or 4)
        names = sorted({line[2:-1] for line in printed if line.startswith('"N')})
        used = names if len(names) <= NAME_LIMIT[tier] else rng.sample(names, NAME_LIMIT[tier])
        rng.shuffle(used)
        res.models.append({"model": "MC_Name/%s/%d" % (group, depth), "states": s, "transitions": g, "names": len(names), "replayed": len(used)})
        res.states += s
        res.transitions += g
        size = 80 if group == "function" else 1100 if group == "short" else 300
        for at in range(0, len(used), size):
            part = used[at:at + size]
            h = Hist()
            arr = rng.choice([0, 1])
            h.ctx(1, 0, arr)
            if group == "function":
                for i, n in enumerate(part):
                    for text in ("%s=%d" % (recase(rng, n), i), "%s(1%s)" % (n, rng.choice(["", "", ",2", ",2,3"]))):
                        h.dcode(h.comp(1, text))
                hs.append(h.end(rng))
                continue
            h.ctx(2, 0, arr)
            for i in range(0, len(part), 20):
                h.dcode(h.do(1, ";".join("%s=%d" % (recase(rng, n) if rng.random() < .5 else n, i + j + 1) for j, n in enumerate(part[i:i + 20]) if n not in CALLS)))
            for n in part:
                h.reg(1, recase(rng, n) if rng.random() < .5 else n)
            for n in rng.sample(part, min(60, len(part))):
                if n not in CALLS:
                    h.dcode(h.do(rng.choice([1, 1, 2]), "%s+=.5" % recase(rng, n)))
                h.reg(2, n)
            h.reset(rng.choice([1, 2]))
            for n in rng.sample(part, min(20, len(part))):
                if n not in CALLS:
                    h.dcode(h.do(1, recase(rng, n)))
            hs.append(h.end(rng))
    return hs


# ------------------------------------------------------------------------------------------------ all interleavings
LOCK_CHECKS = ["SPECIFICATION Spec"] + ["INVARIANT " + i for i in ("Right", "Once", "Kept", "Mutex")] + ["PROPERTY Ends"]
LOCK = dict(Threads=2, OpsEach=2, Alg='"double"', Faults="TRUE", Global="FALSE", Private="FALSE")
LOCK_EDGE = re.compile(r'"E (-?\d+) (-?\d+) (-?\d+) (-?\d+) (\d+) \\"(\w+)\\" (.*)"$')
# property: [(constants of models checked, quick and thorough), (constants of replayed models, quick and thorough, paths)]
LOCK_USES = {
    "C01": ([dict(), dict(Threads=3, OpsEach=1)], [dict(), dict(Threads=3, OpsEach=1), dict(Threads=3, Private="TRUE", Faults="FALSE")],
            [dict(OpsEach=1), dict(OpsEach=2)], [dict(OpsEach=1), dict(OpsEach=2), dict(Threads=3, OpsEach=1)], 400, 6000),
    "C02": ([dict(Threads=3, OpsEach=1)], [dict(), dict(Threads=3, OpsEach=1)], [dict(OpsEach=1)], [dict(OpsEach=2)], 150, 3000),
    "C03": ([dict(Threads=3, OpsEach=1, Global="TRUE")], [dict(Threads=3, OpsEach=2, Global="TRUE")], [], [], 0, 0),
    "F01": ([dict(OpsEach=1)], [dict(Threads=3, OpsEach=1)], [], [], 0, 0),
}


def lock_paths(consts, rng, limit, res):
    """Interleavings which together use every transition, or as many as fit: [(programs, [(thread, step)])]."""
    c = dict(LOCK, **dict(dict(Faults="FALSE", Private="TRUE"), **consts))
    printed, g, s = run_tlc("MC_Lock", c, None, LOCK_CHECKS + ["ACTION_CONSTRAINT Log"], workers=1)
    out, progs, into = {}, {}, set()
    for line in printed:
        m = LOCK_EDGE.match(line)
        if m:
            a, b = (m.group(1), m.group(2)), (m.group(3), m.group(4))
            out.setdefault(a, {})[(int(m.group(5)), m.group(6))] = b
            progs[a] = m.group(7)
            into.add(b)
    starts = sorted(a for a in out if a not in into)
    rng.shuffle(starts)
    left = {(a, k) for a in out for k in out[a]}
    total = len(left)
    paths = []
    # where something unused can still be reached
    def fresh_first(a):
        seen, queue, at = {a: None}, [a], 0
        while at < len(queue):
            x = queue[at]
            at += 1
            for k in out.get(x, {}):
                if (x, k) in left:
                    while seen[x] is not None:
                        x, k = seen[x]
                    return k
            for k, y in out.get(x, {}).items():
                if y not in seen:
                    seen[y] = (x, k)
                    queue.append(y)
        return None
    dead = set()
    while left and len(paths) < limit and len(dead) < len(starts):
        for a in starts:
            if a in dead or len(paths) >= limit:
                continue
            if fresh_first(a) is None:
                dead.add(a)
                continue
            x, path = a, []
            while x in out:
                new = [k for k in sorted(out[x]) if (x, k) in left]
                k = rng.choice(new) if new else fresh_first(x) or rng.choice(sorted(out[x]))
                left.discard((x, k))
                path.append(k)
                x = out[x][k]
            ops = [[tuple(o) for o in t] for t in json.loads(progs[a].replace("<<", "[").replace(">>", "]").replace('\\"', '"'))]
            paths.append((ops, path))
    res.models.append({"model": "MC_Lock %s" % " ".join("%s=%s" % x for x in sorted(c.items())), "states": s, "transitions": g,
                       "transitions_of_interest": total, "replayed": total - len(left), "paths": len(paths)})
    res.states += s
    res.transitions += g
    return paths


def lock_history(ops, path, rng, variant="double"):
    h = Hist(variant)
    n = len(ops)
    own = rng.random() < .5
    if own:
        h.buf(1)
    base = rng.choice([0, 65536, 126 * 65536])
    off = rng.choice([0, 1000, 65536 - n])
    for c in range(1, n + 1):
        h.ctx(c, 1 if own else 0)
        h.reg(c, "a")
    fails = rng.random() < .25
    if fails and rng.random() < .5:
        h.do(1, "gmem[%d]=70" % (base + off))
    codes = []
    for t in range(n):
        codes.append([])
        for kind, i, j in ops[t]:
            x = base + 65536 * i + off + j - 1
            codes[t].append(h.comp(t + 1, (rng.choice(["gmem[%d]=%d", "gmegabuf(%d)=%d", "assign(gmem[%d],%d)", "memory=gmem[%d]=%d"]) % (x, 10 * t + len(codes[t]) + 1))
                                   if kind == "w" else "a=gmem[%d]" % x))
    if fails:
        h.fault(True)
    segs = []
    for t, step in path:
        if segs and segs[-1][0] == t - 1:
            segs[-1][1] += 1
        else:
            segs.append([t - 1, 1])

    def work(t):
        def f():
            for k in codes[t]:
                h.run(k)
        return f
    h.threads([work(t) for t in range(n)], segs, points=True)
    if fails:
        h.fault(False)
        for t in range(n):
            for k in codes[t]:
                h.run(k)
    for i in (0, 1):
        for c in range(1, n + 1):
            h.scan("g", c, base + 65536 * i + off, base + 65536 * i + off + n)
    return h.end(rng)


def lock_hists(prop, tier, rng, res):
    if prop not in LOCK_USES:
        return []
    u = LOCK_USES[prop]
    for consts in u[0] if tier == "quick" else u[1]:
        _, g, s = run_tlc("MC_Lock", dict(LOCK, **consts), None, LOCK_CHECKS, workers=os.cpu_count() or 4)
        res.models.append({"model": "MC_Lock %s" % " ".join("%s=%s" % x for x in sorted(consts.items())), "states": s, "transitions": g})
        res.states += s
        res.transitions += g
    hs = []
    for consts in u[2] if tier == "quick" else u[3]:
        hs += [lock_history(ops, path, rng) for ops, path in lock_paths(consts, rng, u[4] if tier == "quick" else u[5], res)]
    return hs


def histories(prop, tier, seed, res):
    """Histories generated from the models which concern a property."""
    rng = random.Random("model %s %d" % (prop, seed))
    hs = []
    for quick, deep, ops, variant in API_USES.get(prop, []):
        hs += api_hists(quick if tier == "quick" else deep, ops, rng, 9000 if tier == "quick" else 400000, res, variant)
    uses = PROG_USES.get(prop, [])
    for group, quick, deep, spellings in uses:
        hs += prog_hists(group, quick if tier == "quick" else deep, spellings, rng, PROG_LIMIT[tier] // len(uses), res)
    uses = PARSE_USES.get(prop, [])
    for group, quick, deep in uses:
        hs += parse_hists(prop, group, quick if tier == "quick" else deep, rng, PARSE_LIMIT[tier] // len(uses), res)
    hs += lock_hists(prop, tier, rng, res)
    hs += mem_hists(prop, tier, rng, res)
    hs += name_hists(prop, tier, rng, res)
    uses = LEX_USES.get(prop, [])
    for group, quick, deep in uses:
        hs += lex_hists(prop, group, quick if tier == "quick" else deep, rng, LEX_LIMIT[tier] // len(uses), res)
    return hs


MODELS = {}
for _p in API_USES:
    MODELS[_p] = "exhaustive TLC model MC_Api with transition-covering replay"
for _p in PROG_USES:
    MODELS[_p] = "; ".join(filter(None, [MODELS.get(_p), "exhaustive TLC model MC_Prog of all small programs, replayed"]))
for _p in PARSE_USES:
    MODELS[_p] = "; ".join(filter(None, [MODELS.get(_p), "exhaustive TLC model MC_Parse of all short token strings, replayed"]))
for _p in LEX_USES:
    MODELS[_p] = "; ".join(filter(None, [MODELS.get(_p), "exhaustive TLC model MC_Lex of all short texts, replayed"]))
for _p in LOCK_USES:
    MODELS[_p] = "; ".join(filter(None, [MODELS.get(_p), "exhaustive TLC model MC_Lock of all interleavings, replayed" if LOCK_USES[_p][2] else "exhaustive TLC model MC_Lock of all interleavings"]))
for _p in MEM_USES:
    MODELS[_p] = "; ".join(filter(None, [MODELS.get(_p), "exhaustive TLC model MC_Mem of all short sequences of memory operations, replayed"]))
for _p in NAME_USES:
    MODELS[_p] = "; ".join(filter(None, [MODELS.get(_p), "exhaustive TLC model MC_Name of all short names and names close to a register's or a function's, replayed"]))
