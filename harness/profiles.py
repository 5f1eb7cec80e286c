"""What is explored for each property: generators of histories.  Every profile is a function (rng, scale) -> [Hist];
scale 1 is the quick tier."""
import itertools, math, re, struct
from gen import *
from hist import Hist

VALS = [0, 1, 2, -1, 0.5, 3, -2.5, 7, 100, 0.25, -0.75, 12, 5, 1000, -3]
WIDE = VALS + [1e-7, 1e6, -1e6, 2147483647.0, 1e15, -1e15, 0.1, 1.0 / 3, 123456.789, -0.0]
EXTREME = [0.0, -0.0, 1.0, -1.0, float("inf"), float("-inf"), float("nan"), 1e308, -1e308, 5e-324, 1e-310, 1e-300, 1e-299,
           2147483647.0, 2147483648.0, -2147483648.0, -2147483649.0, 4294967296.0, 9.3e18, -9.3e18, 1.8e19, 8388607.0, 8388608.0, 8388607.9999,
           -0.00005, -0.5, 0.5, 65535.0, 65536.0, 1e-5, 2e-5, 1e-6, 1048576.0, 1048577.0]
CELLS = (0, 1, 2, 3, 65534, 65535, 65536, 65537)


def lang(rng, programs, names="abcd", regs=(), vals=VALS, variant="double", times=(1, 1, 2), mem=True, tol=0, vary=1, scan=True):
    """One context executing programs with random variable values."""
    h = Hist(variant)
    h.ctx(1)
    sl = [h.reg(1, n) for n in list(names) + list(regs)]
    for p in programs:
        k = None
        for _ in range(vary):
            for s in sl:
                if rng.random() < .8:
                    h.set(s, rng.choice(vals))
            if k is None:
                k = h.comp(1, p)
            for _ in range(rng.choice(times)):
                h.run(k, tol)
    if mem and scan:
        h.scan("m", 1, 0, 8)
        h.scan("m", 1, 65530, 65540)
        h.scan("g", 1, 0, 8)
        h.scan("g", 1, 65530, 65540)
    return h.end(rng)


def chunks(xs, n):
    return [xs[i:i + n] for i in range(0, len(xs), n)]


def style(rng, t):
    return text(t, rng.choice(["min", "min", "full", "mix"]), rng)


# ------------------------------------------------------------------------------------------------ algebra
SAME = ["{0}+0", "0+{0}", "{0}-0", "{0}*1", "1*{0}", "{0}/1", "{0}^1", "-(-{0})", "!!{0}", "+{0}", "min({0},{0})", "max({0},{0})", "{0}&&1", "1&&{0}", "0||{0}", "{0}||0", "{0}|0", "{0}|{0}", "{0}&{0}", "if(1,{0},0)", "if(0,1,{0})",
        "{0}?{0}:{0}", "loop(1,{0})", "exec2(0,{0})", "exec3(1,2,{0})", "(0;{0})", "{0}+=0", "{0}-=0", "{0}*=1", "{0}/=1", "{0}={0}", "{0}^=1", "{0}|=0", "({0}+1)-1", "({0}*2)/2", "({0}/2)*2", "{0}*3/3", "{0}/3*3", "1/(1/{0})", "0+0+{0}", "1*{0}*1",
        "abs({0})", "abs(abs({0}))", "int({0})", "if({0},{0},0)", "_if({0}!=0,{0},0)", "{0}&$xffffffff", "_neg(_neg({0}))", "pow({0},1)", "_add({0},0)", "_mul({0},1)", "_sub({0},0)", "_div({0},1)", "({0})", "({0};)"]
FIXED = ["{0}*0", "0*{0}", "0/{0}", "{0}/0", "{0}^0", "1^{0}", "{0}/{0}", "{0}-{0}", "{0}=={0}", "{0}!={0}", "{0}<={0}", "{0}<{0}", "{0}>={0}", "{0}&&0", "0&&{0}", "{0}||1", "1||{0}", "{0}%1", "{0}&0", "if({0},1,1)", "if(0,{0},1)", "loop(0,{0})",
         "exec2({0},0)", "({0};0)", "{0}?2:2", "sign({0})*0", "pow({0},0)", "equal({0},{0})", "band({0},0)", "bor(1,{0})", "above({0},{0})", "{0}-={0}", "{0}*=0", "{0}/={0}", "{0}%=1", "{0}&=0", "0%{0}"]
STRONG = ["sqr({0})", "{0}^2", "{0}*{0}", "{0}*2", "2*{0}", "{0}+{0}", "{0}/2", "{0}/3", "{0}/7", "{0}/10", "{0}*.1", "{0}%2", "{0}%4", "{0}%8", "{0}&1", "{0}*-1", "0-{0}", "-{0}", "1/{0}", "{0}*4", "{0}/8", "2^{0}", "{0}^3", "{0}^-1", "{0}^.5", "sqrt(sqr({0}))",
          "{0}+{1}-{1}", "{0}*{1}/{1}", "({0}+{1})+1", "{0}+({1}+1)", "2*({0}*3)", "({0}+1)+2", "{0}-1-2", "{0}*2*3", "{0}/2/3", "{0}*{1}+{0}*2", "!({0}=={1})", "!({0}<{1})", "!({0}>{1})", "!({0}&&{1})", "-({0}-{1})", "{0}*({1}+1)", "{0}+{1}", "{1}+{0}", "{0}-{1}",
          "({0}>{1})+({0}<{1})", "if({0}>{1},{0},{1})", "{0}=={1}-0", "{0}-{1}==0", "3/2/{0}", "1/3*{0}", ".1+.2+{0}", "{0}+.1+.2", "7%4%{0}", "5-3-{0}", "{0}^2^2", "2^2^{0}"]


def identities(rng, n, variant="double"):
    """What looks as if it could be simplified: in operands with effects, as target, next to changes of the operand."""
    hs = []
    tops = [float("nan"), float("inf"), float("-inf"), 0., -0., 1e308, 5e-324, 1e-310, 2147483648., -2147483649., 1e-6, 1e16]
    for i in range(n):
        h = Hist(variant)
        h.ctx(1)
        sl = [h.reg(1, x) for x in "abcr"]
        h.do(1, "megabuf(1)=7;gmem[2]=4")
        for _ in range(4):
            f = rng.choice(rng.choice([SAME, FIXED, STRONG]))
            x = rng.choice(["a", "a", "a", "megabuf(1)", "gmem[2]", "(a=a+1)", "(b=2;a)", "exec2(c+=1,a)", "(a+=2)", "(megabuf(3)=a)", "reg07", "-a", "(a*2)", "if(b,a,c)", "2", "0"])
            e = "(" + f.format(x, rng.choice(["b", "c", "(b+=1)"])) + ")"
            shape = rng.choice(["{e}", "r={e}", "r={e}", "{e}=5;r=a", "{e}+=2;r=a", "r={e}+(a=7)", "r=(a=7)+{e}", "r=min({e},(a=3;b))", "assign({e},4)", "loop(2,{e}+=1)", "r={e};a=a+1;{e}", "{e};r=a", "r={e}*{e}", "megabuf({e})=r", "r=if({e},a,b)",
                                "r=exec2({e},a)", "r=({e})?b:c", "r={e}=={x}", "r={e}-{x}", "1;{e};b=2", "({e}=3)+a", "r=({e}=3);c=a", "r=!{e}", "r=-{e}"])
            k = h.comp(1, shape.format(e=e, x=x))
            p = "^" in f or "pow" in f or "sqrt" in f
            for _ in range(rng.choice([2, 3])):
                for s in sl:
                    r = rng.random()
                    h.set(s, rng.choice([0, 1, 2, 3, -2, 4]) if p and r < .9 else rng.choice(VALS) if r < .4 else rng.uniform(-10, 10) if r < .7 else rng.choice(tops))
                h.run(k, 6 if p else 0)
        h.scan("m", 1, 0, 8)
        hs.append(h.end(rng))
    return hs


def identity_edges(rng, n, variant="double"):
    """Every template once on plain variables holding what an identity of the reals does not hold for."""
    tops = [float("nan"), float("inf"), float("-inf"), 0., -0., 1e308, 5e-324, 1e-310, 2147483648., -2147483649., 1e-6, 1e16]
    fs = [f for f in SAME + FIXED + STRONG if not ("^" in f or "pow" in f or "sqrt" in f)]
    rng.shuffle(fs)
    hs = []
    for part in chunks(fs, 4):
        h = Hist(variant)
        h.ctx(1)
        sl = [h.reg(1, x) for x in "abcr"]
        for f in part:
            k = h.comp(1, "r=(" + f.format("a", "b") + ")")
            for t in rng.sample(tops[:3], 2) + rng.sample(tops[3:], n):
                h.set(sl[0], t)
                h.set(sl[1], rng.choice(tops))
                h.run(k, 0)
        hs.append(h.end(rng))
    return hs


# ------------------------------------------------------------------------------------------------ size
def large_text(rng, kind, most=1e9):
    """A program which is large in some way."""
    few = lambda *a: min(rng.choice(a), int(most))
    v = lambda: rng.choice("abcd")
    small = lambda: rng.choice(["%s=%s+1" % (v(), v()), "%s+=1" % v(), "%s=%d" % (v(), rng.randint(0, 9)), "%s-=%s/2" % (v(), v()), "megabuf(%d)+=1" % rng.randint(0, 5), "%s" % v(),
                                "%s=%s>%s" % (v(), v(), v()), "%s=-%s" % (v(), v())])
    filler = lambda n: "".join(rng.choice("xyz ;=1(/") for _ in range(n))
    if kind == "list":
        n = few(33, 65, 70, 129, 260, 300)
        p = ";".join(small() for _ in range(n))
        return rng.choice(["%s", "%s", "(%s)", "c=(%s)", "if(a,(%s),b)", "loop(2,%s)"]) % p
    if kind == "statements":     # short statements over many lines
        n = few(40, 130, 270)
        return ";\n".join(small() for _ in range(n))
    if kind == "comment":
        c = filler(few(250, 600, 5000, 9000, 17000)).replace("*/", "")
        return rng.choice(["a=a+1;/*%s*/b=2", "a=1//%s\n;b=a+2", "a=/*%s*/b+/**/1;c=5", "//%s\nd=4", "/*%s*/"]) % c
    if kind == "space":
        n = few(250, 300, 5000, 17000)
        return rng.choice(["a=1;%sb=2;c=b", "a=%sb+1", "%sa=5", "a=5%s", "b=2;%s;%sa=3"]).replace("%s", rng.choice([" ", "\n", "\t", "\r\n", " \n"]) * n)
    if kind == "nest":
        n = few(20, 45, 60, 110, 190)
        o, c = rng.choice([("(", ")"), ("sin(", ")"), ("min(a,", ")"), ("(1+", ")"), ("exec2(b=a,", ")"), ("if(1,", ",2)"), ("(a=a+1;", ")"), ("megabuf(", ")"), ("-(", ")"), ("1+(2*(", "))"), ("max(", ",b)"), ("(", ";)"), ("a*2-(", ")"), ("abs(", ")")])
        return "c=" + o * n + rng.choice(["a", "1", "b+1"]) + c * n
    if kind == "chain":
        n = few(30, 70, 140, 260)
        o = rng.choice(["+", "-", "*", "/", "=", "&&", "||", "==", "<", "+=", "^", "|", "?", "u", "[", "!"])
        if o == "?":
            return "c=" + "".join("%s?%d:" % (rng.choice(["a==%d" % i, "0", "b"]) if i < n - 2 else "0", i) for i in range(n)) + "99"
        if o == "u":
            return "c=" + "".join(rng.choice("-+") + rng.choice(["", " "]) for _ in range(n)).replace("--", "- -") + "a"
        if o == "!":
            return "c=" + "!" * n + "a"
        if o == "[":
            return "c=a" + "[1]" * n
        if o in ("=", "+="):
            return o.join(v() for _ in range(n)) + o + "1"
        return "c=" + o.join(rng.choice(["a", "b", "1", "2", "0.5"]) for _ in range(n))
    if kind == "digits":
        n = few(18, 22, 33, 41, 64, 70, 130, 260, 700)
        d = "".join(rng.choice("0123456789") for _ in range(n))
        k = rng.randrange(6)
        z = "0" * n
        return "a=" + ["0.%s" % d, "%s" % d[:300], "%s.%s" % (d[:n // 2], d[n // 2:]), "%s1.5" % z, "1.%s1" % z, "0.%s%se%d" % (z, d[:20], n)][k] + ";b=a*2"
    if kind == "hex":
        return "a=$x%s%s;b=a" % ("0" * few(0, 10, 40), "".join(rng.choice("0123456789abcdefABCDEF") for _ in range(rng.randint(1, 16))))
    if kind == "name":
        n = few(31, 32, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 1023, 1025)
        x = "".join(rng.choice("abcdefgh_XYZ0123") for _ in range(n - 1))
        return "v%sq=3;v%sQ+=1;v%sr=5;a=v%sq;b=v%sR;v%s=7;c=v%sq" % (x, x.lower(), x, x.upper(), x, x, x)
    raise ValueError(kind)


LARGE = ["list", "list", "statements", "comment", "space", "nest", "nest", "chain", "chain", "digits", "hex", "name"]


def large(rng, n, variant="double", kinds=LARGE, errors=.25, most=1e9, destroy=True):
    """Histories with large programs, correct ones and (at the end, mostly) broken ones."""
    hs = []
    for i in range(n):
        h = Hist(variant)
        h.ctx(1)
        sl = [h.reg(1, x) for x in "abcd"]
        for _ in range(2):
            kind = rng.choice(kinds)
            p = large_text(rng, kind, most)
            if rng.random() < errors:
                k = rng.randrange(4)
                if k == 0:
                    p += rng.choice([")", "\n)", ";sin(1,2)", " a b", ";\n\n  a=)", "\n@", "(", "=", ";a=foo(1)", ";min(1)\n"])
                elif k == 1:
                    x = rng.randint(0, len(p))
                    p = p[:x] + rng.choice(["@", ")", " ) ", "=", "/*", "\n"]) + p[x:]
                elif k == 2:
                    p = rng.choice(["a=(", "sin(", "if(1,", "a b;"]) + p
                else:
                    p = p[:rng.randint(0, len(p))]
            for s in sl:
                h.set(s, rng.choice([0, 1, 2, 3, 5, -2, .5]))
            k = h.comp(1, p)
            h.err(1)
            for _ in range(rng.choice([1, 2])):
                h.run(k)
            if destroy and rng.random() < .6:
                h.dcode(k)
            if rng.random() < .5:
                h.do(1, "a=b+1;c=a")
        h.scan("m", 1, 0, 8)
        hs.append(h.end(rng))
    return hs


def often(rng, variant="double", n=1100):
    """The same code executed often, and many pieces of code compiled."""
    h = Hist(variant)
    h.ctx(1)
    s = [h.reg(1, x) for x in "ab"]
    k = h.comp(1, rng.choice(["a=a+1;b=a*2", "a+=1", "a=(b+=1;b+2)", "a=loop(2,b+=1)", "megabuf(a+=1)=a;b+=megabuf(a)"][:4 if n > 5000 else 5]))
    if n > 5000 or rng.random() < .5:
        for i in range(n):
            h.run(k)
    else:
        keep = []
        for i in range(n // 3):
            j = h.do(1, rng.choice(["a=%d" % i, "b=a+%d" % i, "a+=b", "sin(", "b=2;a=%d" % i]))
            keep.append(j)
            if len(keep) > 20:
                h.dcode(keep.pop(rng.randrange(len(keep))))
        for j in keep:
            h.run(j)
    h.run(k)
    return h.end(rng)


ORDER = ["%s({0},{1})" % f for f in ("atan2 sigmoid min max pow above below equal band bor exec2 loop assign _set _add _sub _mul _div _mod "
                                     "_equal _noteq _above _below _aboeq _beleq _and _or").split()]
ORDER += ["%s({0},{1},{2})" % f for f in "memset memcpy exec3 if _if".split()]
ORDER += ["({0})%s({1})" % o for o in "+ - * / % ^ | & == != < > <= >= && ||".split()]
ORDER += ["%s(({0};x),{1})" % f for f in "_addop _subop _mulop _divop _modop _orop _andop _powop".split()]
ORDER += ["megabuf({0})%s({1})" % o for o in "= += -= *= /= %= |= &= ^=".split()]
ORDER += ["gmem[{0}]={1}", "({0})[{1}]", "({0})[{1}]={2}", "({0})?({1}):({2})", "megabuf(megabuf({0})={1})=({2})", "({0})-({1})-({2})", "({0})^({1})^({2})",
          "x=({0})+(y=({1})*({2}))", "(({0};x)=({1}))=({2})", "min(max({0},{1}),{2})", "({0})+({1})*({2})"]


# ------------------------------------------------------------------------------------------------ language
def L01(rng, scale, variant="double", n=220):
    hs = []
    for i in range(int(n * scale)):
        g = Gen(rng, vars="abcd", regs=["reg%02d" % rng.randrange(100)] if rng.random() < .3 else [],
                mem=rng.random() < .7, depth=rng.choice([1, 2, 2, 3, 3, 4]), nums=NUMS)
        hs.append(lang(rng, [style(rng, g.program(rng.choice([1, 3, 5]))) for _ in range(3)], regs=g.regs, variant=variant,
                       mem=g.mem))
    fixed = ["", ";", "a", "3", "a=5;b=a+1;c=b*a;d=c-b", "a=b=c=d=7", "a=(b=2)+(c=3)*(d=4)", "(a=1;b=2;a+b)",
             "exec3(a=1,b=a+1,c=b+a)", "exec2(a=3,a)+exec2(b=4,b)", "a=1;a=a+1;a=a*10;a",
             "assign(a,5);assign(b,assign(c,2)+1)", "megabuf(0)=1;megabuf(1)=megabuf(0)+1;a=megabuf(1)",
             "gmegabuf(1)=2;gmem[2]=gmem[1]*3;b=gmegabuf(2)", "a=0;loop(4,a=a+1;b=a*a)", "a=5;while(a=a-1;b+=a;a)",
             "0[]=3;1[]=4;a=0[1]+1[]", "a=1;2;3", "a=(1;2;3)", "a=min(b=3,c=2)", "exec2(a=1,b=2)=5", "a=10;b=a/4;c=a%4;d=a^2",
             "memset(0,5,3);a=megabuf(2)+megabuf(3)", "memset(0,1,4);memset(2,2,4);memcpy(1,2,3);a=megabuf(1);b=megabuf(3)",
             "a=(b=5;c=6;)", "if(1,a=1;b=2,c=3)", "a=1;;;b=2;", "a=2;();b=3"]
    fixed = [p for p in fixed if p not in ("", ";")] + [""]
    hs += [lang(rng, c, variant=variant) for c in chunks(fixed, 6)]
    # every operator and function says in which order it evaluated its operands
    probes = []
    for f in ORDER:
        for _ in range(2):
            q = [rng.choice(["(c=c*10+%d;%s)", "(c=c*10+%d;%s)", "exec2(c=c*10+%d,%s)", "if(c=c*10+%d,%s,0)"]) % (k, v)
                 for k, v in zip((1, 2, 3), rng.choice([("2", "3", "1"), ("3", "2", "2"), ("a", "1", "b"), ("1", "a", "1"), ("0", "2", "a")]))]
            probes.append("c=0;%s%s" % (rng.choice(["", "", "d=", "b+="]), f.format(*q)))
    rng.shuffle(probes)
    hs += [lang(rng, c, variant=variant, tol=9, scan=False) for c in chunks(probes, 2)]
    if n > 100:
        hs += large(rng, int(16 * scale), variant, ["list", "list", "statements", "nest", "chain"], 0)
    if n > 100:
        hs += identities(rng, int(25 * scale), variant)
    return hs


def L02(rng, scale, variant="double"):
    hs, progs = [], []
    consts = ["0", "1", "2", "3", "0.5", "7", "$pi", "$xff", "10", "1.5"]
    for i in range(int(220 * scale)):
        # a constant expression, alone and with its numbers in variables
        g = Gen(rng, vars=["q"], mem=False, loops=False, effects=0, depth=rng.choice([1, 2, 3]), nums=consts)
        t = g.expr(g.depth, False)
        def sub(t, f):
            if t[0] == "n" or t[0] == "v":
                return f(t)
            if t[0] == "f":
                return (t[0], t[1], [sub(x, f) for x in t[2]])
            if t[0] == "l":
                return ("l", [sub(x, f) for x in t[1]])
            return tuple(sub(x, f) if isinstance(x, tuple) else x for x in t)
        c = sub(t, lambda x: ("n", rng.choice(consts)) if x[0] == "v" else x)
        order = []
        def tovar(x):
            if x[1] not in order and len(order) < 4:
                order.append(x[1])
            return ("v", "wxyz"[order.index(x[1])]) if x[1] in order and rng.random() < .8 else x
        v = sub(c, tovar)
        load = ";".join("%s=%s" % ("wxyz"[i], o) for i, o in enumerate(order))
        progs.append(("a=" + style(rng, ("l", [c]) if prec(c) >= 6 else ("f", "exec2", [("n", "0"), c])),
                      (load + ";" if load else "") + "b=(" + style(rng, v) + ")",
                      style(rng, c)))
    for ch in chunks(progs, 3):
        hs.append(lang(rng, [p for t in ch for p in t], names="abwxyz", variant=variant, mem=False))
    # lists with useless items, effects in every position of constant constructs
    effects = ["a=a+1", "b=2", "megabuf(1)=a+5", "gmem[2]+=1", "memset(0,b,2)", "memcpy(4,0,2)", "c+=a", "loop(2,c+=1)",
               "assign(d,9)", "reg03=4", "while(d-=1)", "a-=1;b*=2", "(a=3;4)", "if(1,c=7,0)", "1?d=8:0", "exec2(a=6,1)",
               "sin((b=3;0))", "-(a=2)", "!(c=5)", "(b=1)+1", "1&&(d=3)", "0||(d=4)", "_set(a,4)", "_addop(b,2)", "1[]=6",
               "abs(a=-4)", "min(c=1,2)", "(3;a=1;5)", "5;a=7", "a", "megabuf(b)", "3", "sqr(2)", "a%=3", "a|=1",
               "c&=6", "c^=1", "b/=2", "_subop(a,1)", "_mulop(a,3)", "_divop(a,2)", "_modop(a,5)", "_orop(a,8)", "_andop(a,15)",
               "_powop(a,1)", "freembuf(0)"]
    frames = ["{0};1", "1;{0}", "1;{0};2", "({0};3)", "(1;{0};3)", "if(1,{0},0)", "if(0,0,{0})", "if(1,({0};1),2)", "exec2(1,{0})", "exec2({0},1)",
              "exec3(1,{0},2)", "exec3({0},1,2)", "exec3(1,2,{0})", "loop(3,{0})", "loop(3,({0};1))", "loop(2,1;{0})", "1?({0}):2",
              "0?1:({0})", "1&&({0})", "0||({0})", "1+({0})", "({0})*0", "sin({0})*0", "min(1,({0};2))", "!({0})", "-({0})", "({0};0);{1}", "a=({0});{1}",
              "{0};{1};{0}", "(({0};1);2);3", "loop(2,loop(2,{0}))", "while(({0};0))", "exec2(loop(2,{0}),3)", "0&&({0})",
              "1||({0})", "if(0,{0},1)", "loop(0,{0})", "band({0},{1})", "bor({0},1)", "max({0},0);{1}", "({0};{1};1)+0", "1;(({0};2);{1};3);4",
              "d=(1;2;({0};3))", "abs(({0};{1};-1))", "({0};{1})", "5;({0};6);7", "megabuf(({0};1))=({1};2)", "above({0},{1})",
              "equal(({0};1),({1};1))", "int({0};2.5)", "sigmoid(0,({0};1))", "atan2(0,({0};1))", "sqr({0})*0;{1}",
              "assign(d,({0};1))", "memset(3,({0};2),1)", "invsqrt({0};4)*0;{1}", "_if(1,{0},{1})", "_and(1,{0})", "_or(0,{0})", "_not({0})",
              "bnot({0})", "_neg({0})", "_mem({0};1)", "_gmem({0};1)", "_add({0},{1})*0", "_equal({0},1)", "_noteq({0},1)", "_below(1,{0})"]
    pairs = [(f, e) for f in frames for e in effects]
    rng.shuffle(pairs)
    progs = [f.format(e, rng.choice(effects)) for f, e in pairs[:int(900 * scale)]]
    for ch in chunks(progs, 5):
        hs.append(lang(rng, ch, names="abcd", regs=["reg03"], variant=variant, times=(1, 2)))
    hs += N02(rng, .12 * min(scale, 2), variant)         # what draws random numbers is never folded
    hs += large(rng, int(8 * scale), variant, ["list", "nest", "chain", "chain"], 0)
    hs += identities(rng, int(120 * scale), variant)
    hs += identity_edges(rng, 4, variant)
    return hs


def L03(rng, scale, variant="double"):
    hs = []
    names = "abcdefgh"
    # nothing but the target of the outermost assignment may change
    ops = ["{0}+{1}", "{0}-{1}", "{0}*{1}", "{0}/{1}", "{0}%{1}", "{0}&{1}", "{0}|{1}", "{0}=={1}", "{0}!={1}", "{0}<{1}",
           "{0}>{1}", "{0}<={1}", "{0}>={1}", "{0}&&{1}", "{0}||{1}", "!{0}", "-{0}", "+{0}", "{0}^1", "abs({0})", "min({0},{1})",
           "max({0},{1})", "sign({0})", "floor({0})", "ceil({0})", "int({0})", "sqr({0})", "sqrt(abs({0}))", "if({0},{1},{2})",
           "{0}?{1}:{2}", "exec2({0},{1})", "exec3({0},{1},{2})", "band({0},{1})", "bor({0},{1})", "bnot({0})", "above({0},{1})", "below({0},{1})",
           "equal({0},{1})", "_not({0})", "_if({0},{1},{2})", "_and({0},{1})", "_or({0},{1})", "_equal({0},{1})", "_noteq({0},{1})", "_above({0},{1})",
           "_below({0},{1})", "_aboeq({0},{1})", "_beleq({0},{1})", "_add({0},{1})", "_sub({0},{1})", "_mul({0},{1})", "_div({0},{1})",
           "_mod({0},{1})", "_neg({0})", "({0};{1})", "loop(2,{0})", "loop({0},{1})", "megabuf(1)", "gmegabuf(2)", "gmem[1]", "1[]", "2[1]", "megabuf({0})",
           "freembuf({0})", "memset(0,{0},2)", "memcpy(1,0,2)", "sigmoid(0,{0})", "atan2(0,abs({0})+1)", "rand({0})*0", "{0}", "sin({0})*0", "cos({0})*0",
           "exp(0*{0})", "log(1)", "log10(1)", "tan({0})*0", "asin(0)", "acos(1)", "atan(0)", "invsqrt(4)*0", "pow({0},1)", "while(0)", "while({0}*0)", "3"]
    progs = []
    for f in ops:
        for shape in ("{x}", "h={x}", "({x})=5", "assign({x},6)", "({x})+=2", "h=({x})+({y})", "g=({x})*2;h=g", "megabuf(3)={x}",
                      "({x};{y})", "loop(2,{x})", "h=if({x},{y},{x})", "megabuf({x})={y}", "{x};{y};h={x}", "exec3({x},{y},{x})", "({x})*=3;({y})-=1"):
            progs.append((f, shape))
    rng.shuffle(progs)
    n = int(700 * scale)
    out = []
    for f, shape in (progs * (1 + n // len(progs)))[:n]:
        inst = lambda f: f.format(*[rng.choice(list("abcdef") + ["megabuf(1)", "gmem[2]", "reg09"]) for _ in range(3)])
        out.append(shape.format(x=inst(f), y=inst(rng.choice(ops))))
    for ch in chunks(out, 4):
        h = Hist(variant)
        h.ctx(1)
        sl = [h.reg(1, n) for n in names] + [h.reg(1, "reg09")]
        h.do(1, "megabuf(1)=2;megabuf(2)=3;gmem[1]=4;gmem[2]=5;megabuf(0)=1")
        for p in ch:
            for s in sl:
                h.set(s, rng.choice(VALS))
            h.do(1, p, rng.choice([1, 2, 3]))
        h.scan("m", 1, 0, 8)
        h.scan("g", 1, 0, 8)
        hs.append(h.end(rng))
    for i in range(int(60 * scale)):
        g = Gen(rng, vars="abcd", depth=3, effects=.5)
        hs.append(lang(rng, [style(rng, g.program(2)) for _ in range(3)], names="abcdefgh", regs=["reg00", "reg99"], variant=variant))
    hs += identities(rng, int(100 * scale), variant)
    return hs


def L04(rng, scale, variant="double"):
    conds = ["{v}", "{n}", "{v}>1", "{v}=={w}", "!{v}", "{v}&&{w}", "{v}||{w}", "megabuf({m})", "gmem[{m}]", "(x+=1;{v})", "(x+=1)-1", "{v}=0", "{v}={n}", "{v}-{v}",
             "{v}<{w}?{n}:{v}", "if({v},{w},{n})", "min({v},{w})", "0", "1", "2", "0.00001", "0.000001", "-1", "0.5", "1e-200", "band({v},{w})", "exec2(x+=1,{n})",
             "loop(2,{v})", "$x0", "-0", "1-1", "3&&0", "1/0", "{v}%2"]
    forms = ["if({c},{p},{q})", "({c})?({p}):({q})", "({c})&&({p})", "({c})||({p})", "_if({c},{p},{q})", "_and({c},{p})", "_or({c},{p})",
             "if({c},{l},{m})=({p})", "(({c})?{l}:{m})+=2", "assign(if({c},{l},{m}),4)", "y=if({c},{p},{q})", "y=({c})&&({p})",
             "y=({c})||({p})", "({c})&&({p})&&({q})", "({c})||({p})||({q})", "({c})&&({p})||({q})", "!(({c})&&({p}))",
             "({c})?({p}):({c})?({q}):(z=5)", "if(({c})||({p}),{q},z=6)", "if({c},if({c},{p},{q}),{q})", "(({c})&&({p}))=7",
             "loop(2,({c})?({p}):({q}))", "if({c},{l},5)=3", "if({c},{l},{m})*=2", "({c})?1:({p})", "({c})?({p}):0", "if({c},0,{p})", "(if({c},{l},{m})=2)+=1",
             "if({c},megabuf(1),gmem[1])=8", "y=({c})?{l}:{m};{m}+=1", "while(if({c},0,0))", "({c})&&1", "({c})||0", "1&&({c})", "0||({c})",
             "1?({p}):({q})", "0?({p}):({q})", "if(2,{p},{q})", "if(0,{p},{q})", "1&&({p})", "0&&({p})", "1||({p})", "0||({p})"]
    eff = ["a=a+1", "b+=2", "megabuf(2)+=1", "gmem[3]=a", "c=b*2", "d-=1;3", "(a+=1;0)", "(b+=1;c)", "a", "0", "5", "b=0", "memset(4,2,2);0", "c+=1", "(d=2)-2", "reg11+=1"]
    progs = []
    for i in range(int(900 * scale)):
        f = rng.choice(forms)
        def cond():
            return rng.choice(conds).format(v=rng.choice("abcd"), w=rng.choice("abcd"), n=rng.choice(["0", "1", "2", "-1"]), m=rng.choice("0123"))
        # fill in one placeholder at a time so that repeated conditions differ sometimes
        while "{c}" in f:
            f = f.replace("{c}", cond(), 1)
        f = f.format(p=rng.choice(eff), q=rng.choice(eff), l=rng.choice(["a", "b", "c", "megabuf(1)", "gmem[2]", "reg11", "(x+=1;d)"]),
                     m=rng.choice(["b", "d", "c", "megabuf(3)", "a", "(x+=1;c)"]))
        progs.append(f)
    hs = [lang(rng, ch, names="abcdxyz", regs=["reg11"], variant=variant, times=(1, 2), vals=[0, 0, 1, 2, -1, 0.5, 3, 1e-6, -0.0, 1e-310])
          for ch in chunks(progs, 5)]
    hs += identities(rng, int(20 * scale), variant)
    return hs


def nest(rng, n, loops=False):
    """n constructs inside each other, at most 32 evaluations of the innermost one."""
    once = ["loop(1,%s)", "loop(1,d+=1;%s)", "while(%s;0)", "while(exec2(%s,0))", "while(d+=1;%s;0)", "loop(1.5,(%s))"]
    if not loops:
        once += ["if(1,%s,d+=1)", "if(0,d+=1,%s)", "exec2(d+=1,%s)", "(%s)", "b=(%s)", "1&&(%s)", "0||(%s)", "1?(%s):2", "exec3(%s,d+=1,b)", "min(%s,100)", "megabuf(1)=(%s)", "-(%s)"]
    s, more = "c+=1", 0
    for i in range(n):
        f = rng.choice(once)
        if more < 5 and rng.random() < .1:
            f = rng.choice(["loop(2,%s)", "loop(a,%s)", "b=2;while(%s;0)"])
            more += 1
        s = f % s
    return s


def L05(rng, scale, variant="double"):
    progs = []
    counts = ["0", "1", "2", "3", "5", "10", "2.9", "0.5", "-1", "-0.5", "1.0000001", "0.99999", "a", "b", "a+b", "a*2", "(a+=1)", "100", "1000", "a-1", "b/2", "megabuf(1)",
              "(x+=1;3)", "if(a,2,1)", "1/0", "$x3", "1e-9", "17.99"]
    bodies = ["c+=1", "c=c+1;d=c*2", "c+=a;a+=1", "megabuf(c)=c;c+=1", "loop(2,c+=1)", "loop(a,c+=1);d+=1", "a-=1;c+=1", "c+=1;0", "(c+=1;d-=1;5)",
              "gmem[1]+=2", "exec2(c+=1,d+=2)", "c=c*2+1", "if(c>2,d+=1,c+=1)", "e=5", "a", "3", "c+=1;while(d>0?d-=1:0)", "memset(c,1,1);c+=2", "b+=1;c+=b"]
    for i in range(int(420 * scale)):
        k = rng.random()
        if k < .55:
            p = "loop(%s,%s)" % (rng.choice(counts), rng.choice(bodies))
        elif k < .8:
            n = rng.choice(["0", "1", "2", "5", "20", "300"])
            p = rng.choice(["e=%s;while(c+=1;e-=1;e)", "e=%s;while(e-=1)", "e=%s;while(e>0?(e-=1;c+=2;1):0)", "e=0;while(e<%s?e+=1:0)", "e=%s;while(c+=e;(e-=1)>0)",
                            "e=%s;while(exec2(c+=1,e-=1)>=1)", "e=%s;while(megabuf(1)+=1;(e-=1)>0)"]) % n
            if p.startswith("e=0") and "e=0;while(e-=1)" in p:
                p = "e=1;while(e-=1)"
        elif k < .9:
            p = "d=loop(%s,%s)" % (rng.choice(counts), rng.choice(bodies))
        elif k < .95:
            p = rng.choice(["e=%s;while(c+=1;e*=%s)", "e=%s;while(c+=1;e=e*%s)", "e=%s;d=while(exec2(c+=1,e*=%s))", "e=-%s;while(c+=1;e*=%s)"]) % (
                rng.choice(["1", "1e-3", "1e-5", "1e-200", "1e-280"]), rng.choice(["1e-3", "1e-60", "1e-20", ".00001"]))
        else:
            p = "e=%s;d=while(c+=1;e-=1)" % rng.choice("12345")
        if rng.random() < .3:
            p = rng.choice(["b=%s", "exec2(%s,x=7)", "(%s)+1", "if(1,(%s),0)", "loop(2,(%s))", "-(%s)"]) % p.split(";while")[0] if ";while" not in p else p
        progs.append(p)
    hs = [lang(rng, ch, names="abcdex", variant=variant, vals=[0, 1, 2, 3, 4, 2.5, -1, 0.5], times=(1, 1, 2)) for ch in chunks(progs, 5)]
    # loops inside loops inside loops
    for i in range(int(10 * scale)):
        h = Hist(variant)
        h.ctx(1)
        sl = [h.reg(1, x) for x in "abcd"]
        for n in rng.sample([4, 9, 14, 18, 22, 33, 50, 70], 3):
            h.set(sl[0], rng.choice([1, 2, 2, 0]))
            h.do(1, nest(rng, n, loops=i % 2 == 0))
            h.do(1, "d=loop(3,c+=1)")
        hs.append(h.end(rng))
    # what a while() takes for 0
    for i in range(int(8 * scale)):
        h = Hist(variant)
        h.ctx(1)
        sl = [h.reg(1, x) for x in "abc"]
        ks = [h.comp(1, rng.choice(["while(c+=1;%s)", "d=while(c+=1;%s)", "while(exec2(c+=1,%s))", "while((c+=1)*0+(%s))", "loop(2,while(c+=1;%s))"]) % rng.choice(["a", "b", "a*0", "a-a", "c<b?a:0", "(b-=1)>0?1:a", "b/0", "a;0", "a!=a", "(c<3)*1e-299", "if(c<3,1,a)"]))
              for _ in range(4)]
        for k in ks:
            for _ in range(3):
                for s in sl:
                    h.set(s, rng.choice([float("nan"), float("nan"), 0., -0., 1e-301, -1e-301, 5e-324, 1e-310] if s == sl[0] else [0, 1, 2, 3, -1]))
                h.run(k)
        hs.append(h.end(rng))
    # limits: counters only, the specification knows their closed form
    big = ["loop(%s,c+=1)" % n for n in ("1048575", "1048576", "1048577", "1048576.5", "2000000", "1e9", "1e18", "1e300", "a", "4294967297", "4294967296", "2147483648", "2147483649",
                                         "8589934593")]
    big += ["loop(5000,c+=1;d+=2)", "loop(1e12,d+=3)", "while(c+=1)", "while(d+=2;c+=1)", "while(c-=1)", "loop(65536,c+=1)", "loop(100000,c-=2)", "while(1+(c+=1))",
            "loop(2,loop(1048576,c+=1))", "while(c+=0.5)"]
    big = [b for b in big if b not in ("while(c-=1)", "while(1+(c+=1))", "while(c+=0.5)")]
    if scale <= 1:
        rng.shuffle(big)
        big = ["loop(2000000,c+=1)", "while(c+=1)"] + big[:8]
    for p in big:
        h = Hist(variant)
        h.ctx(1)
        sl = {n: h.reg(1, n) for n in "abcd"}
        if rng.random() < .6:
            h.do(1, rng.choice(["loop(3,c+=1)", "b=%d;while(b-=1)" % rng.randint(2, 9), "c=%d;while(c-=1)" % rng.randint(2, 9), "loop(7,loop(2,c+=1))"]))
        h.set(sl["a"], rng.choice([float("inf"), 1e10, 3e9, 1e308, 2097152.0]))
        h.do(1, p)
        h.do(1, "b=c")
        hs.append(h.end(rng))
    return hs


ALLOPS = ["||", "&&", "|", "&", "==", "!=", ">", ">=", "<", "<=", "-", "+", "*", "/", "%", "^"]


def L06(rng, scale, variant="double"):
    """Operator sequences without parentheses, with operand values that tell the groupings apart."""
    progs = []
    atom = lambda: rng.choice(["a", "b", "c", "d", "2", "3", "1", "0", "5", "a", "b", "c"])
    un = lambda: rng.choice(["", "", "", "", "-", "!", "+", "-", "!"])
    pairs = list(itertools.product(ALLOPS + ["?"], ALLOPS + ["?"]))
    rng.shuffle(pairs)
    n = int(700 * scale)
    for i in range(n):
        o1, o2 = pairs[i % len(pairs)]
        ops = [o1, o2] + [rng.choice(ALLOPS + ["?"]) for _ in range(rng.choice([0, 0, 0, 1, 2]))]
        rng.random() < .3 and rng.shuffle(ops)
        s = un() + atom()
        for o in ops:
            if o == "?":
                s += "?" + un() + atom() + rng.choice(ALLOPS) + atom() + ":" + un() + atom()
            else:
                x = atom()
                if o == "^":
                    x = rng.choice(["1", "0", "1"])
                s += o + un() + x
            if rng.random() < .06:
                s += "[" + rng.choice(["", "1", "a"]) + "]"
        k = rng.random()
        if k < .25:
            s = rng.choice("xyz") + rng.choice(ALLASSIGN[:5]) + s
        elif k < .33:
            s = "x" + rng.choice(["=", "+=", "-="]) + "y" + rng.choice(["=", "*=", "/=", "+=", "-="]) + s
        elif k < .38:
            s = "x=y" + rng.choice(ALLASSIGN) + "z" + rng.choice(ALLASSIGN[:5]) + s
        elif k < .42:
            s = rng.choice(["a?x:y", "!a", "-x", "a+x", "x*y", "x&&y"]) + rng.choice(["=", "+=", "*="]) + s
        progs.append(s)
    # two assignment operators in a row, every combination
    progs += ["x%sy%s%s" % (p, q, rng.choice("abc")) for p in ALLASSIGN for q in ALLASSIGN if "^=" not in (p, q)]
    progs += ["x^=y^=1", "x=y^=1", "x^=y=1", "x=1?y=2:z=3", "x=0?y=2:z", "1?x:y=3", "0?x:y=3", "a,b", "x=-a^1", "-2^2", "-a[1]", "!a[1]", "!a==b", "-a-b", "2-3-4", "64/4/2", "2*3%4", "7%4*2", "2+3*4^1%5",
              "1<2<3", "3>2>1", "1<2==2>1", "1==1!=0", "a<b<=c", "5>4<3", "1|2&4", "4&6|1", "1&&0||1", "1||0&&0", "a?b:c?d:1", "a?b?c:d:1", "!!a", "--a", "-!a", "!-a", "+-a",
              "2^3^2", "-1^0", "!2^0", "!0+1", "-1+2", "1- -1", "a[b]+c", "a+b[c]", "a*2[]", "-1[]", "gmem[1]+2", "gmem[1+2]*3", "a=b=c", "a[1]=b", "1[2]=3[]=4", "a&&b||c&&d",
              "a|b&&c", "a&b==c", "a==b&c", "a<b&&c>d", "a<b==c", "a+b<c+d", "a*b+c", "a%b*c", "a*b%c", "a/b%c", "a^1%b", "a%b^1", "!a^1", "!a*b", "-a*b", "-a%b", "!a%b",
              "x=9007199254740992|1|2", "x=9007199254740992|1|2|1|2", "x=1|2|9007199254740992", "x=9007199254740992|1|2&7", "x=a|9007199254740992|b|c", "x=-9007199254740992|1|2"]
    progs = [p for p in progs if p != "a,b"]
    hs = []
    # every two operators next to each other, in both orders, with signs and negation in between
    every = ALLOPS + ALLASSIGN + ["?", "[", "[]"]
    two = []
    for o1, o2 in itertools.product(every, every):
        s = "x"
        for o, y in ((o1, "y"), (o2, "z")):
            s += "?%s:c" % y if o == "?" and rng.random() < .5 else "?c:%s" % y if o == "?" else "[%s]" % y if o == "[" else o if o == "[]" else o + y
        two.append(s)
        if rng.random() < .3:
            two.append(rng.choice("-!+") + s)
        if rng.random() < .3:
            two.append(s.replace("y", rng.choice("-!+") + "y").replace("+++", "+ + +"))
    rng.shuffle(two)
    for ch in chunks(two, 12):
        hs.append(lang(rng, ch, names="cxyz", vals=[2, 3, 0, 1, 5, 7, 4], variant=variant, times=(1,), vary=4, tol=9, scan=False))
    for ch in chunks(progs, 8):
        # also the fully parenthesised form of some, as the specification's parser groups it, is compared implicitly:
        # the result must equal that of the specification's tree
        hs.append(lang(rng, ch, names="abcdxyz", vals=[2, 3, 5, 7, 0, 1, -2, -3, 11, 13, 0.5, 1.5, 17], variant=variant, times=(1,), vary=3))
    hs += large(rng, int(10 * scale), variant, ["chain"], 0)
    return hs


def L07(rng, scale, variant="double"):
    hs = []
    seeds = ["a=b+c*2;d=min(a,3)", "megabuf(1)=$pi;c=megabuf(1)", "gmem[2]=$xfF;b=gmem[2]", "a=if(b>1,c,d)", "loop(3,a+=1;b=a*2)", "a=1.5e3+.5", "reg05=3;a=REG05",
             "a=$'x'+$'A'", "x_1=5;a=X_1+_y", "a=exec3(b,c,d)", "memset(0,1,3);a=megabuf(2)", "while(a-=1)", "a=b?c:d", "a+=b-=2", "a=-b;c=!d", "a=$e*$phi", "5[1]=2;a=6[]", "a==b||c!=d&&a<=b", "sigmoid(0,1)+atan2(0,1)"]
    for i in range(int(110 * scale)):
        g = Gen(rng, vars=["a", "b", "C", "d"], depth=2, effects=.4)
        base = [text(g.program(2), "min", rng) if rng.random() < .6 else rng.choice(seeds) for _ in range(2)]
        progs = []
        for b in base:
            t = tokens(b)
            progs.append(b)
            for _ in range(2):
                k = rng.randrange(3)
                u = [recase(rng, x) if not x.startswith("$'") else x for x in t] if k != 0 else t
                progs.append(trivia(rng, u, rng.choice([.2, .6, 1])) if k != 1 else recase_join(rng, u))
        hs.append(lang(rng, progs, names="abcd", regs=["reg05"], variant=variant))
    odd = ["/* only a comment */", "// only", "// only\n", "/**/", "  \t\r\n ", "a=1//x", "a=1 /* x", "a=1 /*", "a=1 //", "/* x */a=2", "a=3/* *", "a/**/=/**/4", "a=8//*2*/2\n/2", "a=1;//;b=2\nb=3",
           "a=6/ /**/2", "a=6/*2*//3", "/*/a=1;/*/a=2", "/**/a=2/**/", "/*\n*/a=\n//\n5", "a=1\r\n;b=2\r\n", "\na\n=\n7\n", "a=/*b=9;*/4", "a = 1 ; /* multi\nline\ncomment */ b = 2 // end", "a=1;/*c*/;/*d*/b=2",
           "//a=1\n//a=2\na=3", "a=5 /* // */ ;b=6", "a=5 // */ ;b=6", "a=5 // /* ;b=6\n;b=7", "/*//*/a=4", "A=2;a", "aB=1;Ab=aB+1;a=AB", "SiN(0)", "IF(1,A=2,a=3)", "GMEM[1]=2;a=gmegabuf(1)",
           "MEGABUF(1)=3;a=MegaBuf(1)", "$PI", "$Pi", "$pI", "$E", "$e", "$PHI", "$Phi", "$XfF", "$xABC", "1E2", "1e2", "Reg05=4;a=rEG05", "LOOP(2,A+=1)", "While(0)", "_IF(1,2,3)", "a=b/*x*/c", "a=si/**/n(0)", "a=1/**/2",
           "a= =b", "a=1 .5", "a+ =1", "a=1&&/**/0", "a=1& &0", "a<\n=b", "a=$ pi", "a=$/**/pi", "/ * a */", "a=2 / / 1", "/*/", "/*/ a=1", "a=1 /*\n*", "a=1;/***", "/***/a=1/***/", "/* ** */a=2", "/*a*/*/a=1", "a=1;// x\\\nb=2", "a=1;//\\\n b=2;//c\\\\\nc=3", "a=1;/*\\*/b=2", "a=1;\x0bb=2\x0c"]
    hs += [lang(rng, ch, names="abcd", regs=["reg05"], variant=variant, scan=False) for ch in chunks(odd, 6)]
    hs += large(rng, int(16 * scale), variant, ["comment", "space", "statements"], .2)
    return hs


def recase_join(rng, toks):
    return trivia(rng, toks, 0)


def literal(rng):
    k = rng.randrange(14)
    d = lambda n: "".join(rng.choice("0123456789") for _ in range(rng.randint(1, n)))
    if k == 0:
        return d(6)
    if k == 1:
        return d(4) + "." + d(6)
    if k == 2:
        return "." + d(8)
    if k == 3:
        return d(5) + "."
    if k == 4:
        return d(3) + rng.choice(["e", "E"]) + rng.choice(["", "+", "-"]) + d(2)
    if k == 5:
        return d(2) + "." + d(4) + rng.choice(["e", "E"]) + rng.choice(["", "+", "-"]) + d(2)
    if k == 6:
        return "." + d(4) + "e" + rng.choice(["", "+", "-"]) + d(2)
    if k == 7:
        return "$" + rng.choice("xX") + "".join(rng.choice("0123456789abcdefABCDEF") for _ in range(rng.randint(1, 13)))
    if k == 8:
        c = chr(rng.choice([x for x in range(32, 127)]))
        return "$'" + c + "'"
    if k == 9:
        return rng.choice(["$pi", "$PI", "$Pi", "$e", "$E", "$phi", "$PHI", "$Phi"])
    if k == 10:
        return repr(rng.uniform(0, 10 ** rng.randint(-5, 15)))
    if k == 11:
        return d(20) + "." + d(20)
    if k == 12:
        return d(3) + ".e" + d(1)
    return "0" * rng.randint(1, 3) + d(5)


def L08(rng, scale, variant="double"):
    hs, progs = [], []
    fixed = ["0", "1", "1.", ".5", "0.1", "0.2", "0.3", "1e0", "1e10", "1e-10", "1E+5", "123456789012345678", "9007199254740993", "0.1e1", "1.7976931348623157e308", "1e308", "1e309", "2e-308", "5e-324", "1e-320",
             "1e-400", "4.35", "2.675", "1.005", "0.30000000000000004", "3.141592653589793", "$xff", "$xFF", "$x0", "$x10", "$x7fffffff", "$x80000000", "$xffffffff", "$x100000000", "$xfffffffffffff",
             "$'a'", "$'A'", "$' '", "$'0'", "$'$'", "$';'", "$'/'", "$'('", "$'\"'", "$'~'", "$pi", "$e", "$phi", "$PI", "$E", "$PHI", "$pHi", "1.234e5", "1.234e-5", "100000000000000000000", "0.000001", "1e22", "1e23",
             "8.5e15", "$xdeadbeef", "$x1fffffffffffff", "$x20000000000001", "000123", "00.5", "16777217", "33554433", "0.1234567890123456789"]
    for lit in fixed + [literal(rng) for _ in range(int(500 * scale))]:
        progs.append(rng.choice(["a=%s", "a=%s", "a=-%s", "b=%s;a=b", "%s", "a=(%s)", "a=%s*1", "c=if(1,%s,0);a=c", "a=max(%s,0)", "megabuf(1)=%s;a=megabuf(1)", "a=1?%s:2",
                                 "exec2(a=%s,a)", "a=%s;b=a", "a=b+%s"]) % lit)
    for ch in chunks(progs, 10):
        hs.append(lang(rng, ch, names="abc", vals=[0, 1], variant=variant, times=(1,), scan=False))
    if variant != "float":       # more digits than a number holds
        wide = ["$x8000000000000000", "$x8000000000000800", "$x8000000000000400", "$x8000000000000c00", "$xffffffffffffffff", "$x7fffffffffffffff", "$xfffffffffffff800", "$x20000000000003",
                "$x10000000000000000", "$xfffffffffffffffff", "$x00000000000000000000ff"]
        wide += ["$x" + "".join(rng.choice("0123456789abcdefABCDEF") for _ in range(rng.randint(13, 18))) for _ in range(int(20 * scale))]
        for ch in chunks(["a=" + w for w in wide], 10):
            hs.append(lang(rng, ch, names="abc", variant=variant, times=(1,), scan=False))
    bad = ["1e", "1e+", "1.e", "1..2", "1.2.3", "$x", "$xg", "$'", "$''", "$'ab'", "$'a", "$", "$q", "$p", "1a", "1e5e5", "0x10", "$pie", "$pix", "$ex", "$phix", "$xffg", "1_000", "12e3.5", "$'a'b", "a$pi", "$pi2", "2$pi"]
    for ch in chunks(["a=" + b for b in bad], 7):
        hs.append(lang(rng, ch, names="abc", variant=variant, times=(1,), scan=False))
    hs += large(rng, int(24 * scale), variant, ["digits", "digits", "hex"], 0)
    return hs


def L09(rng, scale, variant="double"):
    hs = []
    progs = []
    for i in range(int(900 * scale)):
        k = rng.random()
        if k < .35:
            g = Gen(rng, vars=["a", "b", "x1", "_z"], depth=rng.choice([1, 2, 3]), spell=.3)
            t = tokens(text(g.program(3), rng.choice(["min", "full"]), rng))
            if rng.random() < .6:
                t = mutate(rng, t, rng.choice([1, 1, 2]))
            progs.append(" ".join(t))
        elif k < .75:
            progs.append(" ".join(rng.choice(VOCAB) for _ in range(rng.randint(1, 9))))
        elif k < .87:
            f = rng.choice(FUNCS)
            progs.append("a=%s(%s)" % (f, ",".join(rng.choice(["a", "1", "b+2", "(a;b)", "a;b", ""]) for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 3, 4])))))
        else:
            progs.append(rng.choice(["a=%s;b=%s;", "(%s;%s)", "a(%s,%s)", "min(%s;%s)", "min(%s,%s);", ";%s;%s", "%s;;%s", "%s;();%s", "gmem[%s;%s]", "%s[%s]", "%s[]%s", "gmem[]=%s+%s", "%s?%s", "%s:%s", "%s?%s:",
                                     "%s=%s=", "()%s%s", "(%s,%s)", "%s%s", "%s %s", "sin %s(%s)", "gmem %s[%s]", "exec2(%s;,%s;)", "loop(%s,)%s", "if(,%s,%s)", "a=%s;b=%s;;"]) %
                         (rng.choice(["a", "1", "a+1", "sin(a)", ""]), rng.choice(["b", "2", "-b", "(a;b)", ""])))
    progs += FIXED_SYNTAX
    for ch in chunks(progs, 12):
        h = Hist(variant)
        h.ctx(1)
        for p in ch:
            h.comp(1, p)
        hs.append(h.end(rng))
    h = Hist(variant)
    h.ctx(1)
    v = h.reg(1, "v")
    h.set(v, 2)
    for kind, ns in (("par", (1, 10, 100, 1000, 3000)), ("sum", (10, 1000, 20000)), ("list", (10, 1000, 8000)), ("neg", (1, 2, 101, 1000))):
        for n in ns:
            h.deep(kind, 1, v, n)
    hs.append(h.end(rng))
    hs += large(rng, int(24 * scale), variant, errors=.5)
    return hs


FUNCS = ["if", "_if", "_and", "_or", "loop", "while", "_not", "bnot", "_equal", "equal", "_noteq", "_below", "below", "_above", "above", "_beleq", "_aboeq", "_set", "assign", "_add", "_sub", "_mul", "_div",
         "_mod", "_addop", "_subop", "_mulop", "_divop", "_modop", "_orop", "_andop", "_powop", "sin", "cos", "tan", "asin", "acos", "atan", "atan2", "sqr", "sqrt", "pow", "exp", "_neg", "log", "log10", "abs", "min",
         "max", "sign", "rand", "floor", "int", "ceil", "invsqrt", "sigmoid", "band", "bor", "exec2", "exec3", "_mem", "megabuf", "_gmem", "gmegabuf", "freembuf", "memcpy", "memset"]
FIXED_SYNTAX = (["%s(%s)" % (f, ",".join(["1"] * n)) for f in FUNCS for n in range(0, 5)] + FUNCS + ["a=%s" % f for f in FUNCS[:8]] + ["%s=1" % f for f in FUNCS[:8]] +
                ["gmem", "gmem=1", "gmem()", "gmem(1)", "gmem[1]", "gmem[]", "gmem[1", "gmem 1]", "a[", "a]", "a[]", "a[][]", "a[1][2]", "1[1]", "(a)[1]", "[1]", "[]", "-a[1]", "sin(1)[2]", "a[b;c]", "a[(b;c)]", "gmem[a;b]",
                 "a b", "a 1", "1 a", "1 1", "(", ")", "()", "(())", "(;)", "(a;)", "(;a)", "(a;;b)", "a;", ";a", "a;;b", "a;b;", ";", ";;", "", " ", "a;()", "();a", "a;();b", "a;(", "a,", ",a", "a,b", "(a,b)", "sin()", "sin(,)",
                 "sin(1,)", "sin(,1)", "min(1;2)", "min(1;2,3)", "min(1,2;3)", "min(1,2;)", "min(;1,2)", "min((),1)", "sin(())", "sin((1))", "sin(a=1)", "foo(1)", "foo (1)", "foo()", "a=foo(1)", "1()", "a()", "1(2)", "(a)(b)",
                 "a=", "=a", "a==", "a=b=", "a+", "+a", "+", "-", "!", "!a", "a!", "a!b", "a!=b", "a=!b", "a+-b", "a--b", "a++b", "a+++b", "a**b", "a//b", "a^-b", "a^!b", "a%-b", "a!==b", "a===b", "a<>b", "a=>b", "a=<b", "a<=b",
                 "a&&&b", "a|||b", "a& &b", "a?b", "a?b:", "a?:c", "a?b:c", "a?b:c:d", "a?b?c:d:e", ":a", "?a", "a:b", "1=2", "(a)=2", "a+b=2", "sin(a)=2", "-a=2", "!a=2", "a=b+c=d", "a?b:c=d", "if(a,b,c)=d", "#", "@", "a@b", "a#",
                 "a~b", "`", "\\", "'", "\"", "{", "}", "a{b}", "a.b", ".", "..", "a.", ".a", "$", "$$", "a$", "\x01", "a\x7f", "\xe9", "a\xff", "_", "_a", "a_", "__", "_1", "1_", "9a", "a9", "reg00", "reg1", "reg100",
                 "a=1;b=2;c=3", "a=1;b=;c=3", "if(a,b)", "if(a,b,c", "if a,b,c)", "if(a;b,c,d)", "loop(3,a;b;c)", "while(a;b)", "exec2(a;b,c;d)", "a=(b=(c=(d=1)))", "((((a))))", "((((a)))", "(((a))))", "a=1;)", "(a=1;b=2)+3", "(1;2;3)*4"])


def L10(rng, scale, variant="double"):
    hs = []
    good = ["a=1", "a=a+1;b=a", "megabuf(1)=a", "gmem[2]=b", "reg05=a", "c=sin(0)", ""]
    for i in range(int(130 * scale)):
        h = Hist(variant)
        h.ctx(1)
        if rng.random() < .3:
            h.ctx(2)
        cs = list(h.ctxs)
        for n in ("a", "b", "reg05"):
            h.set(h.reg(1, n), rng.choice(VALS))
        keep = []
        for j in range(rng.randint(3, 9)):
            c = rng.choice(cs)
            r = rng.random()
            if r < .2:
                keep.append(h.do(c, rng.choice(good)))
            elif r < .8:
                g = Gen(rng, vars=["a", "b", "x1"], depth=rng.choice([1, 2]), spell=.2)
                t = mutate(rng, tokens(text(g.program(3), "min", rng)), rng.choice([1, 1, 1, 2]))
                if rng.random() < .15:
                    f = rng.choice(FUNCS)
                    t = t[:rng.randint(0, len(t))] + [";", f, "(", "1", ")"]
                s = trivia(rng, t, rng.choice([0, .2, .5]))
                k = h.comp(c, s)
                keep.append(k)
            elif r < .9 and keep:
                h.run(rng.choice(keep))
            else:
                h.err(c)
            if rng.random() < .4:
                h.err(rng.choice(cs))
        h.scan("m", 1, 0, 4)
        h.err(1)
        for k in keep:
            h.run(k)
        hs.append(h.end(rng))
    pos = ["a=", "\n\na=)", "a=1;\nb=2;\nc=*3", "a=1\nb=2", "  @", "/* x\n y */ )", "a=1;// c\n)", "sin(1,2)", "a=1;\n  sin(1,2)", "a=\nmin(1)", "a=if(sin(1,2),3)", "a=$xg", "a=$", "a=$'", "(a", "a)", "a\t)", "a=1;\r\n)", "\v)",
           "a=1 /* c */ )", "a=1/*\n*/)", "x=foo(1)", "x=1 2", "long_variable_name=1 2", "a=1.5.5", "a==)", "gmem", "gmem 1", "gmem[1", "a[1", "min(1,2", "min(1,2,3)", "if(1,2)\n", "a=min(\n1,\n2,\n3)", "exec3(1,2)", "a=rand()",
           "while()", "loop(1)", "a=1;b=(2;\n3;\n", "!!", "a&&&b", "a|||b", "a<>b", "a=>b", "@@@", "a @ b", "\n\n\n@", "/*\n\n*/@", "//x\n@", "a\n//x\n@", "sin", "a=sin", "a=sin\n+1", "sin\n(1,2)", "min(sin(1,2),3,4)",
           "min(1,2,sin(1,2))", "sin(1,2)+", "sin(1,2)+)", "a=sin(1,2);b=)", "_if(1)", "a=1;\n\n_if(1)", "a,b", "a;\nb,c", ")", "]", ":", "?", ",", "=", "a=1;]"]
    for ch in chunks(pos, 6):
        h = Hist(variant)
        h.ctx(1)
        h.reg(1, "a")
        for p in ch:
            h.comp(1, p)
            h.err(1)
            if rng.random() < .5:
                h.do(1, "a=a+1")
                h.err(1)
        hs.append(h.end(rng))
    hs += large(rng, int(24 * scale), variant, ["statements", "comment", "space", "space", "chain", "nest", "name"], .8)
    return hs


def L11(rng, scale, variant="double"):
    """Anything goes: extreme values, indices and counts."""
    hs = []
    lits = ["0", "1", "-1", "1e308", "1e-310", "1e400", "(1e400-1e400)", "2147483648", "-2147483648", "4294967296", "1e19", "0.5", "8388607", "8388608", "65535", "65536", "-0.00001", "1e-300", "3", "1/0", "sqrt(-1)", "log(0)", "-1e400",
            "9007199254740993", "-9007199254740993", "1e15", "16777216"]
    for i in range(int(220 * scale)):
        progs = []
        for _ in range(4):
            k = rng.random()
            v = lambda: rng.choice(["a", "b", "c", "d", rng.choice(lits), rng.choice(lits)])
            if k < .45:
                f = rng.choice([f for f in FUNCS if f not in ("loop", "while")])
                n = {"if": 3, "_if": 3, "exec3": 3, "memcpy": 3, "memset": 3}.get(f) or (1 if f in ("_not", "bnot", "sin", "cos", "tan", "asin", "acos", "atan", "sqr", "sqrt", "exp", "_neg", "log", "log10", "abs", "sign", "rand", "floor",
                    "int", "ceil", "invsqrt", "_mem", "megabuf", "_gmem", "gmegabuf", "freembuf") else 2)
                e = "%s(%s)" % (f, ",".join(v() for _ in range(n)))
                progs.append(rng.choice(["%s", "e=%s", "(%s)=3", "(%s)+=a", "e=(%s)*0+1"]) % e)
            elif k < .75:
                progs.append("e=%s%s%s" % (v(), rng.choice(ALLOPS), v()))
            elif k < .85:
                progs.append("%s%s%s" % (rng.choice(["a", "b", "megabuf(%s)" % v(), "gmem[%s]" % v(), "%s[%s]" % (v(), v())]), rng.choice(ALLASSIGN), v()))
            elif k < .92:
                progs.append("memcpy(%s,%s,%s)" % (v(), v(), v()) if rng.random() < .5 else "memset(%s,%s,%s)" % (v(), v(), v()))
            elif k < .96:
                progs.append("loop(%s,c+=1)" % rng.choice(["-1e400", "0", "3", "-5", "1e-310", "a*0+2"]))
            else:
                g = Gen(rng, vars="abcd", depth=3, nums=[l for l in lits if not l.startswith("(")] , loops=False)
                progs.append(style(rng, g.program(3)))
        hs.append(lang(rng, progs, names="abcde", vals=EXTREME, variant=variant, times=(1, 2), scan=False))
    h = Hist(variant)
    h.ctx(1)
    v = h.reg(1, "v")
    h.set(v, 2)
    for kind, ns in (("par", (5000, 9000, 20000)), ("sum", (50000,)), ("list", (20000,)), ("neg", (5000, 30000))):
        for n in ns:
            h.deep(kind, 1, v, n)
    hs.append(h.end(rng))
    # every operator on every pair of extreme values
    ops = ["a%sb" % o for o in ALLOPS] + ["a%sb" % o for o in ALLASSIGN] + ["megabuf(a)=b", "gmem[a]=b", "megabuf(a)+megabuf(b)", "a[b]", "memset(a,1,b)", "memcpy(a,b,3)", "memcpy(0,a,b)", "memcpy(a,0,b)", "int(a)", "floor(a)", "ceil(a)", "rand(a)",
                                              "invsqrt(a)", "sigmoid(a,b)", "atan2(a,b)", "pow(a,b)", "min(a,b)", "max(a,b)", "sign(a)", "sqrt(a)", "log(a)", "exp(a)", "freembuf(a)", "band(a,b)", "a?1:2", "!a", "if(a,b,c)", "asin(a)", "acos(a)", "log10(a)", "sqr(a)", "tan(a)"]
    pairs = [(o, x, y) for o in ops for x in EXTREME for y in EXTREME]
    rng.shuffle(pairs)
    heavy = [p for p in pairs[:int(2500 * scale)]]
    for ch in chunks(heavy, 25):
        h = Hist(variant)
        h.ctx(1)
        a, b = h.reg(1, "a"), h.reg(1, "b")
        for o, x, y in ch:
            if o.startswith(("memset", "memcpy")) and rng.random() < .8 and max(abs(x), abs(y)) > 1e5 if x == x and y == y else True:
                continue
            h.set(a, x)
            h.set(b, y)
            h.do(1, o)
        hs.append(h.end(rng))
    hs += large(rng, int(12 * scale), variant, errors=.3)
    return hs


def L12(rng, scale, variant="double"):
    hs = []
    targets = ["a", "megabuf(1)", "gmem[2]", "reg07", "1[]", "0[1]", "if(b>1,a,c)", "(b>1?a:megabuf(1))", "(c+=1;a)", "megabuf(c+=1)", "(a=b)", "exec2(c+=1,a)", "gmegabuf(c)", "(a+=1)", "assign(a,c)", "_mem(1)"]
    rhs = ["b", "2", "3", "b+1", "c", "(c=4)", "megabuf(1)", "-b", "0", "0.5", "a", "a+b", "b*c", "7", "(c+=1)", "1.5", "loop(2,c+=1)", "gmem[2]"]
    fn = {"+=": "_addop", "-=": "_subop", "*=": "_mulop", "/=": "_divop", "%=": "_modop", "|=": "_orop", "&=": "_andop", "^=": "_powop"}
    progs = []
    for i in range(int(700 * scale)):
        o = rng.choice(ALLASSIGN[1:])
        t, x = rng.choice(targets), rng.choice(rhs)
        if o == "^=":
            x = rng.choice(["1", "0", "2", "b*0+1"])
        k = rng.random()
        comp = "%s%s%s" % (t, o, x) if k < .6 else "%s(%s,%s)" % (fn[o], t, x)
        k = rng.random()
        if k < .35:
            p = comp
        elif k < .5:
            p = "d=(%s)" % comp
        elif k < .6:
            p = "(%s)=5" % comp
        elif k < .7:
            p = "(%s)%s%s" % (comp, rng.choice(ALLASSIGN[:4]), rng.choice(["2", "b"]))
        elif k < .85:
            p = "%s=%s%s(%s)" % (t, t, o[:-1], x)
        elif k < .92:
            p = "loop(3,%s)" % comp
        else:
            p = "d=(%s)+1;c=d" % comp
        progs.append(p)
    for ch in chunks(progs, 5):
        h = Hist(variant)
        h.ctx(1)
        sl = [h.reg(1, n) for n in ("a", "b", "c", "d", "reg07")]
        for p in ch:
            for s in sl:
                h.set(s, rng.choice([0, 1, 2, 3, 5, -7, 2.5, 0.5, 10, 100, -1, 13, 6]))
            h.do(1, "megabuf(1)=%s;gmem[2]=%s" % (rng.choice(["3", "-8", "2.5", "0"]), rng.choice(["4", "9", "-1.5", "0"])))
            h.do(1, p, rng.choice([1, 1, 2]))
        h.scan("m", 1, 0, 8)
        h.scan("g", 1, 0, 8)
        hs.append(h.end(rng))
    # extreme operands: both spellings, next to each other
    ops = [o for o in ALLASSIGN[1:]]
    for i in range(int(90 * scale)):
        h = Hist(variant)
        h.ctx(1)
        sl = [h.reg(1, n) for n in ("a", "b", "c", "d", "e")]
        for o in rng.sample(ops, 4):
            k = h.comp(1, rng.choice(["c=d=a;c=c%s b;d%sb;e=c==d", "d=a;e=(a%sb);c=d%sb"][:1] if o == "^=" else
                                     ["c=d=a;c=c%s b;d%sb;e=c==d", "c=a;d=(a%s b)==(c%sb)", "megabuf(2)=a;c=a%s b;e=megabuf(2)%sb"]) % (o[:-1], o))
            for _ in range(3):
                for n, x in zip(sl, [rng.choice(EXTREME + WIDE + 3 * [float("-inf"), -0.]), rng.choice([.5, -.5, 2., 3., -1., 1., 0.] if o == "^=" and rng.random() < .7 else EXTREME + [1e-301, -1e-305, 1e-42, -1e-44, 2., -3.]), 0, 0, 0]):
                    h.set(n, x)
                h.run(k, 6 if o == "^=" else 0)
        hs.append(h.end(rng))
    hs += identities(rng, int(40 * scale), variant)
    return hs


def L13(rng, scale, variant="double"):
    hs = []
    vals = [0.0, -0.0, 1.0, -1.0, 0.5, 2.0, 1e-5, 2e-5, 1e-6, -1e-6, 1e-10, 1e-299, 1e-301, 5e-324, -1e-301, 1e15, 1e15 + 1, 1e300, -1e300, float("inf"), float("-inf"), float("nan"), 3.0, 1 + 2 ** -52, 1 - 2 ** -53, 0.1, 0.1 + 2 ** -56,
            100.0, -100.0, 16777216.0, 16777217.0, 1e-38, 1e-41, 1e-42, 1e-45, 1.0000001]
    exprs = ["a==b", "a!=b", "a<b", "a>b", "a<=b", "a>=b", "a&&b", "a||b", "!a", "!b", "!!a", "equal(a,b)", "above(a,b)", "below(a,b)", "_equal(a,b)", "_noteq(a,b)", "_above(a,b)", "_below(a,b)", "_aboeq(a,b)", "_beleq(a,b)", "_and(a,b)",
             "_or(a,b)", "_not(a)", "bnot(a)", "band(a,b)", "bor(a,b)", "a<b|a==b|a>b", "(a<b)+(a==b)+(a>b)", "(a<=b)==((a<b)||(a==b))", "(a!=b)==!(a==b)", "a?1:0", "if(a,1,0)", "(a>=b)==!(a<b)", "a==a", "a<=a", "min(a,b)==a", "(a==b)==(b==a)",
             "!(a&&b)==(!a||!b)"]
    pairs = [(x, y) for x in vals for y in vals]
    rng.shuffle(pairs)
    n = int(330 * scale)
    close = []
    for _ in range(n // 3):
        x = rng.choice([1.0, 3.0, 0.1, 1e-5, 1e5, rng.uniform(-10, 10), 1e-300, 1e-41])
        b = struct.unpack("<q", struct.pack("<d", x))[0] + rng.choice([-1, 0, 1, 2])
        close.append((x, struct.unpack("<d", struct.pack("<q", b))[0]))
    cases = (pairs * 10)[:n] + close
    for ch in chunks(cases, 12):
        h = Hist(variant)
        h.ctx(1)
        a, b, r = h.reg(1, "a"), h.reg(1, "b"), h.reg(1, "r")
        ks = [h.comp(1, rng.choice(["r=%s", "%s", "r=(%s)+0", "r=(%s)&1", "r=-(%s)"]) % e) for e in rng.sample(exprs, 9)]
        for x, y in ch:
            h.set(a, x)
            h.set(b, y)
            for k in ks:
                h.run(k)
        # the same on constants
        for _ in range(3):
            p = rng.choice(exprs)
            x, y = rng.choice(["0", "1", "2.5", "1e-6", "1e-5", "2e-5", "1e-301", "3", "-1"]), rng.choice(["0", "1", "2.5", "1e-6", "2e-5", "1e-301", "-1"])
            h.do(1, "r=" + p.replace("a<b", "A<B").replace("(a", "(A").replace("a", "A", 0).replace("r", "r") if False else "a=%s;b=%s;r=%s" % (x, y, p))
            h.do(1, rng.choice(["r=%s==%s", "r=%s<%s", "r=%s>%s", "r=%s&&%s", "r=%s||%s", "r=%s!=%s", "r=%s<=%s", "r=%s>=%s", "r=band(%s,%s)", "r=bor(%s,%s)", "r=equal(%s,%s)", "r=above(%s,%s)"]) % (x, y))
        hs.append(h.end(rng))
    return hs


def L14(rng, scale, variant="double"):
    """Many pieces of code, recompiled, repeated and destroyed in between."""
    hs = []
    for i in range(int(110 * scale)):
        h = Hist(variant)
        h.ctx(1)
        if rng.random() < .4:
            h.ctx(2)
        sl = [h.reg(c, n) for c in list(h.ctxs) for n in "abc"]
        g = Gen(rng, vars="abc", depth=rng.choice([1, 2, 3]), effects=.4, regs=["reg01"])
        texts = [style(rng, g.program(2)) for _ in range(3)] + [style(rng, ("o", rng.choice(["=", "+=", "*=", "-="]), g.no_lvalue(0), g.expr(1)))] + [rng.choice(["a+b", "c=exec2(a=b,2)+=1", "loop(2,1+=a)", "if(a,b,c)", "a?b:c", "loop(2,a+=1)", "a&&b", "megabuf(a)", "(a;b)", "sin(0)", "min(a,b)", "exec2(a,b)=c", "7", "c=loop(3,b)", "a=while(b-=b)"])]
        texts += [str(rng.randint(0, 99)), str(rng.randint(0, 99) + .5), rng.choice("abc"), rng.choice(["reg01", "A", "min(2,%d)" % rng.randint(0, 9)])]
        live = []
        turn = rng.random() < .4       # one after the other, mostly, so that new code takes the place of the old one
        for step in range(rng.randint(8, 18)):
            r = rng.random()
            if turn and rng.random() < .7:
                k = h.do(rng.choice(list(h.ctxs)), rng.choice(texts), rng.choice([1, 1, 2]))
                h.dcode(k)
            elif r < .3 or not live:
                k = h.comp(rng.choice(list(h.ctxs)), rng.choice(texts))
                live.append(k)
            elif r < .8:
                if rng.random() < .3:
                    for s in sl:
                        h.set(s, rng.choice(VALS))
                k = rng.choice(live)
                for _ in range(rng.choice([1, 1, 2, 3])):
                    h.run(k)
            elif r < .9 and len(live) > 1:
                k = rng.choice(live)
                live.remove(k)
                h.dcode(k)
            elif r < .95:
                h.comp(rng.choice(list(h.ctxs)), rng.choice(["a=", "b=sin(", "sin(1,2)", "a=1)", "@"]))
            else:
                h.reset(rng.choice(list(h.ctxs)))
        if i % 25 == 0:
            k = h.comp(1, rng.choice(["while(c+=1)", "loop(2000000,c+=1)"]))
            h.run(k)
            h.do(1, rng.choice(["b=%d;while(b-=1)", "loop(%d,b+=1)"]) % rng.randint(2, 9))
            h.run(k)
        h.scan("m", 1, 0, 8)
        hs.append(h.end(rng))
    hs += [often(rng, variant) for _ in range(int(3 * scale) + 1)] + ([often(rng, variant, 66000)] if scale > 5 else []) + large(rng, int(5 * scale), variant, ["list", "chain"], .2)
    return hs


def L15(rng, scale):
    hs = []
    for f, s in ((lambda r, s: L01(r, s, "float", 90), 1), (lambda r, s: L02(r, s, "float"), .18), (lambda r, s: L08(r, s, "float"), .35), (lambda r, s: L13(r, s, "float"), .35), (lambda r, s: M01(r, s, "float"), .25),
                 (lambda r, s: M02(r, s, "float"), .2), (lambda r, s: M03(r, s, "float"), .2), (lambda r, s: N03(r, s, "float"), .3), (lambda r, s: L05(r, s, "float"), .2), (lambda r, s: L09(r, s, "float"), .15),
                 (lambda r, s: N01(r, s, "float"), .4), (lambda r, s: L12(r, s, "float"), .2), (lambda r, s: L11(r, s, "float"), .15), (lambda r, s: N02(r, s, "float"), .4), (lambda r, s: V01(r, s, "float"), .2),
                 (lambda r, s: L04(r, s, "float"), .2)):
        hs += f(rng, s * scale)
    # rounding to single precision of every operation
    for i in range(int(25 * scale)):
        h = Hist("float")
        h.ctx(1)
        a, b = h.reg(1, "a"), h.reg(1, "b")
        h.reg(1, "c")
        ks = [h.comp(1, p) for p in ("c=a+b", "c=a-b", "c=a*b", "c=a/b", "c=sqrt(abs(a))", "c=sqr(a)", "a+=b", "a*=b", "c=a==b", "c=a<b", "c=a%b", "c=abs(a)+0.1", "c=min(a,b)*0.3", "c=a+1e-7")]
        for _ in range(6):
            h.set(a, rng.choice([rng.uniform(-100, 100), rng.uniform(-1, 1) * 10 ** rng.randint(-30, 30), 16777217.0, 0.1, 1 / 3]))
            h.set(b, rng.choice([rng.uniform(-100, 100), rng.uniform(-1, 1) * 10 ** rng.randint(-8, 8), 3.0, 0.7]))
            for k in ks:
                h.run(k)
        hs.append(h.end(rng))
    return hs


# ------------------------------------------------------------------------------------------------ numbers
def N01(rng, scale, variant="double"):
    hs = []
    f1 = {"sin": (-100, 100), "cos": (-100, 100), "tan": (-1.5, 1.5), "asin": (-1, 1), "acos": (-1, 1), "atan": (-1000, 1000), "exp": (-50, 50), "log": (1e-6, 1e6), "log10": (1e-6, 1e6), "sqrt": (0, 1e6), "sqr": (-1e3, 1e3), "abs": (-1e3, 1e3),
          "sign": (-10, 10), "floor": (-100, 100), "ceil": (-100, 100), "int": (-100, 100)}
    f2 = {"atan2": (-10, 10), "pow": (0.01, 20), "min": (-10, 10), "max": (-10, 10), "sigmoid": (-8, 8)}
    tol = 12 if variant != "float" else 6
    for i in range(int(60 * scale)):
        h = Hist(variant)
        h.ctx(1)
        a, b, r = h.reg(1, "a"), h.reg(1, "b"), h.reg(1, "r")
        for _ in range(10):
            if rng.random() < .6:
                f = rng.choice(list(f1))
                k = h.comp(1, rng.choice(["r=%s(a)", "%s(a)", "r=%s(a);r", "r=exec2(b,%s(a))"]) % f)
                lo, hi = f1[f]
                xs = [rng.choice([rng.uniform(lo, hi), rng.uniform(lo, hi) / 100, lo, hi, 0.0, 1.0, 0.5, float(rng.randint(math.ceil(lo), math.floor(hi)))]) for _ in range(5)]
                if f in ("floor", "ceil", "int", "sign", "abs"):
                    xs += [-0.5, 0.5, -1.5, 2.5, -2.0, 3.0, 0.0, -0.999999, 1e9 + .5]
                if f == "tan":
                    xs = [min(1.5, max(-1.5, x)) for x in xs]
                if f in ("log", "log10"):
                    xs = [x for x in xs if x >= 0]
                if f in ("sqrt", "log", "log10", "asin", "acos") and rng.random() < .4:
                    xs += {"sqrt": [-1.0], "log": [0.0, -1.0], "log10": [0.0, -2.0], "asin": [1.5], "acos": [-1.5]}[f]
                for x in xs:
                    if f in ("sin", "cos") and abs(x) > 1 and variant == "float":
                        x = rng.uniform(-1, 1)
                    h.set(a, x)
                    h.run(k, tol if not (f in ("floor", "ceil", "int", "sign", "abs", "sqr", "sqrt")) else 0)
            elif rng.random() < .8:
                f = rng.choice(list(f2))
                k = h.comp(1, rng.choice(["r=%s(a,b)", "%s(a,b)", "b=%s(a,b)"]) % f)
                if f == "pow" and rng.random() < .5:
                    k = h.comp(1, rng.choice(["r=a^b", "r=a;r^=b", "r=pow(a,b)"]))
                lo, hi = f2[f]
                for _ in range(6):
                    x, y = rng.uniform(lo, hi), rng.uniform(lo, hi)
                    if f == "pow":
                        y = rng.choice([rng.uniform(-5, 5), 2.0, 0.5, -1.0, 0.0, 3.0])
                        x = rng.choice([x, 0.0, 1.0, 2.0]) if y >= 0 else x
                    if f == "atan2":
                        x, y = rng.choice([x, 0.0, 1.0, -1.0]), rng.choice([y, 0.0, 1.0, -1.0])
                    if rng.random() < .2 and f != "pow":
                        y = x
                    h.set(a, x)
                    h.set(b, y)
                    h.run(k, 0 if f in ("min", "max") else 4 if f == "sigmoid" and tol == 6 else tol)
            else:
                k = h.comp(1, "r=invsqrt(a)")
                for _ in range(4):
                    h.set(a, rng.choice([rng.uniform(.01, 100), 1.0, 4.0, 0.25, 10 ** rng.uniform(-20, 20)]))
                    h.run(k, 2)
            # constants are folded with the same functions
            f = rng.choice(list(f1))
            x = rng.uniform(*f1[f]) if f not in ("sin", "cos", "tan") else rng.uniform(-1, 1)
            h.do(1, "r=%s(%.6f)" % (f, abs(x)), tol=tol)
            f = rng.choice(["atan2(%s,%s)", "pow(%s,%s)", "min(%s,%s)", "max(%s,%s)", "sigmoid(%s,%s)"])
            h.do(1, "r=" + f % (rng.choice(["0.5", "1.25", "2", "3"]), rng.choice(["0.5", "1.75", "2", "3"])), tol=tol)
        hs.append(h.end(rng))
    hs += identities(rng, int(20 * scale), variant)
    return hs


def N02(rng, scale, variant="double"):
    hs = []
    for i in range(int(40 * scale)):
        h = Hist(variant)
        h.ctx(1)
        n = rng.choice(["1", "2", "10", "100", "1000000", "0", "-5", "0.5", "1.5", "2.9", "3.999", "65537", "5e9", "n", "n", "n", "n", "n"])
        r, s = h.reg(1, "r"), h.reg(1, "s")
        nv = h.reg(1, "n")
        x = rng.choice([0.0, 1.0, 5.0, 255.0, 12345.75, -3.0, float(2 ** 31), 32768.0, 70000.0, 1e12, 5e9, float(2 ** 40), 1e18])
        h.set(nv, x)
        top = math.floor(x) if n == "n" else math.floor(float(n))
        top = float(max(top, 1))
        form = rng.choice(["r=rand(%s)", "r=rand(%s);r", "r=(rand(%s))", "r=if(1,rand(%s),0)", "r=exec2(1,rand(%s))", "r=rand((s=4;%s))", "r=rand(%s)+0", "r=min(rand(%s),1e30)", "loop(1,r=rand(%s))", "r=rand(%s)"]) % n
        k = h.comp(1, form)
        for _ in range(110):
            h.run(k, 0, [r])
        h.drawn(k, top)
        two = h.comp(1, "r=rand(%s);s=rand(%s)" % (n, n))
        for _ in range(60):
            h.run(two, 0, [r, s])
        h.drawn(two, top)
        if rng.random() < .5:
            other = h.comp(1, form)
            for _ in range(3):
                h.run(other, 0, [r])
                h.run(k, 0, [r])
        if variant != "shim":
            plain = h.comp(1, "rand(%s)" % n)
            for _ in range(110):
                h.run(plain, 0, [-1])
            h.drawn(plain, top)
        hs.append(h.end(rng))
    return hs


def N03(rng, scale, variant="double"):
    hs = []
    ints = [0, 1, -1, 2, -2, 3, 5, 7, -7, 10, 12, 255, -255, 256, 1000, 65535, 65536, 16777215, 2147483647, -2147483648, -2147483647, 0.5, -0.5, 0.99, -0.99, 1.5, -1.5, 2.9, -2.9, 7.999, -7.999, 123456.5, 0.0]
    ops = ["a%b", "a&b", "a|b", "_mod(a,b)", "x=a;x%=b", "x=a;x&=b", "x=a;x|=b", "x=a;_modop(x,b)", "x=a;_andop(x,b)", "x=a;_orop(x,b)", "megabuf(1)=a;megabuf(1)%=b", "x=a%b%3", "x=a&b|1", "x=-a%b", "x=(a|b)&(b|a)", "gmem[1]=a;x=gmem[1]&b", "gmem[1]=a;gmem[1]|=b;x=gmem[1]"]
    cases = [(x, y) for x in ints for y in ints]
    rng.shuffle(cases)
    for ch in chunks((cases * 20)[:int(500 * scale)], 10):
        h = Hist(variant)
        h.ctx(1)
        a, b = h.reg(1, "a"), h.reg(1, "b")
        h.reg(1, "x")
        ks = [h.comp(1, o if "x" in o or "megabuf" in o else rng.choice(["x=%s", "%s"]) % o) for o in rng.sample(ops, 7)] + [h.comp(1, "x=a%b"), h.comp(1, "x=a|b"), h.comp(1, "x=a&b")]
        for x, y in ch:
            if rng.random() < .3:
                x, y = float(rng.randint(-10 ** 6, 10 ** 6)), float(rng.randint(-1000, 1000))
            h.set(a, x)
            h.set(b, y)
            for k in ks:
                h.run(k)
        for _ in range(6):
            x, y = rng.choice(cases)
            lit = lambda v: ("(-%r)" % -v if v < 0 else "%r" % v)
            h.do(1, "x=%s%s%s" % (lit(float(x)), rng.choice("%&|"), lit(float(y))))
        hs.append(h.end(rng))
    return hs


# ------------------------------------------------------------------------------------------------ memory
EDGE = [0, 1, 2, 65533, 65534, 65535, 65536, 65537, 131071, 131072, 131073, 196607, 196608, 8323071, 8323072, 8388605, 8388606, 8388607, 8388608, 8388609]


def idx(rng):
    r = rng.random()
    if r < .6:
        return rng.choice(EDGE)
    if r < .7:
        return rng.choice([-1, -2, -65536, 8388608 + 65536, 16777216, 2147483647, 2147483648, 4294967296, -2147483648, 9e15, 1e18, -1e18, 1e300])
    return rng.randrange(0, 8388608)


def num(x):
    x = float(x)
    s = "%r" % x if abs(x) < 1e15 else "%.0f" % x if abs(x) < 1e25 else "%r" % x
    if s.endswith(".0"):
        s = s[:-2]
    return "(-%s)" % s[1:] if s.startswith("-") else s


def scans(rng, h, spots, ctxs=(1,), n=4, which="mg"):
    """Inspect windows around some cells."""
    for w in which:
        for c in ctxs:
            for x in rng.sample(sorted(spots), min(n, len(spots))):
                x = int(max(0, min(8388607, x)))
                h.scan(w, c, max(0, x - 4), min(8388608, x + 5))


def M01(rng, scale, variant="double"):
    hs = []
    for i in range(int(90 * scale)):
        h = Hist(variant)
        h.ctx(1)
        r, ii = h.reg(1, "r"), h.reg(1, "i")
        used = set()
        fl = variant == "float"
        kw = [h.comp(1, p) for p in ("megabuf(i)=r", "_mem(i)=r", "i[]=r", "0[i]=r", "i[0]=r", "assign(megabuf(i),r)", "megabuf(i)+=r", "i[]*=2")]
        kg = [h.comp(1, p) for p in ("gmegabuf(i)=r", "_gmem(i)=r", "gmem[i]=r", "assign(gmem[i],r)", "gmem[i]-=r", "gmem[i*1]=r")]
        kr = [h.comp(1, p) for p in ("r=megabuf(i)", "r=i[]", "r=_mem(i)", "r=1[i-1]", "megabuf(i)", "i[]")]
        kq = [h.comp(1, p) for p in ("r=gmegabuf(i)", "r=gmem[i]", "r=_gmem(i)", "gmem[i]", "gmegabuf(i)")]
        pool = [idx(rng) for _ in range(6)]
        for _ in range(rng.randint(6, 14)):
            x = rng.choice(pool) if rng.random() < .8 else rng.choice(pool) + rng.choice([-1, 1, 65536, -65536])
            f = rng.random()
            if f < .15:
                x = x + rng.choice([0.00001, -0.00001, 0.3, 0.25, 1e-6, .45, .5, .75, .9, .99])
            elif f < .23:
                x = rng.choice([float("nan"), float("nan"), float("inf"), float("-inf"), 1e300, -1e300, 9.3e18, 1.8446744073709552e19, 4294967296., 5e-324, -0.])
            h.set(ii, x)
            if abs(x) < 1e9:
                used.add(x)
            if rng.random() < .55:
                h.set(r, rng.choice([1, 2, 3, -4, 5.5, 77, 1e10]) if rng.random() < .85 else rng.choice(EXTREME))
                h.run(rng.choice(kw if rng.random() < .5 else kg))
            else:
                h.run(rng.choice(kr if rng.random() < .5 else kq))
        for _ in range(3):
            x = rng.choice(pool)
            h.do(1, rng.choice(["megabuf(%s)=3", "gmem[%s]=4", "r=megabuf(%s)", "r=gmem[%s]", "%s[]=6", "r=%s[]", "%s[1]=7", "gmegabuf(%s)+=1"]) % num(x))
        if rng.random() < .5:
            out = lambda: "%s(%s)" % (rng.choice(["megabuf", "gmegabuf", "_mem", "_gmem"]), rng.choice(["-1", "-2", "8388608", "1e12", "-i-1"]))
            h.do(1, rng.choice(["r=(%s=5)+%s", "r=min(%s=5,%s)", "r=(%s=5)-(%s=7)", "r=if(%s=5,1,2)+%s", "r=exec2(%s=5,%s)", "r=(%s+=3)*(%s=2)", "r=(%s=5)+(%s=1;megabuf(i))"]) % (out(), out()))
        scans(rng, h, {x for x in used if abs(x) < 1e9}, n=4)
        hs.append(h.end(rng))
    # a sweep writing distinct values into all blocks and reading them back
    for w, spell in (("m", "megabuf(i)"), ("g", "gmem[i]")):
        h = Hist(variant)
        h.ctx(1)
        ii = h.reg(1, "i")
        k = h.comp(1, "%s=%s+i+1;%s" % (spell, spell, spell))
        blocks = list(range(128)) if scale > 1 or w == "m" else rng.sample(range(128), 40)
        for b in blocks:
            h.set(ii, b * 65536 + (b * 517) % 65536)
            h.run(k)
        for b in rng.sample(blocks, 20):
            c = b * 65536 + (b * 517) % 65536
            h.scan(w, 1, max(0, c - 2), min(8388608, c + 3))
        if scale > 1:
            h.scan(w, 1, 0, 8388608)
        hs.append(h.end(rng))
    # fresh blocks are zero, also after other memory was used and freed
    h = Hist(variant)
    h.ctx(1)
    h.do(1, "memset(0,5,200000)")
    h.dctx(1)
    h.codes.clear()
    h.ctx(2)
    h.reg(2, "a")
    h.do(2, "a=megabuf(100)+gmem[7]")
    h.scan("m", 2, 0, 70000)
    h.scan("g", 2, 65000, 66000)
    hs.append(h.end(rng))
    return hs


def sparse(rng, n, op, variant="double"):
    """Ranges over several blocks, some of which hold a few values and some of which were never touched."""
    hs = []
    for i in range(n):
        h = Hist(variant)
        h.ctx(1)
        sl = [h.reg(1, x) for x in "abc"]
        first = rng.choice([0, 0, 1, 40, 122]) * 65536
        blocks = rng.randint(2, 6)
        spot = lambda: first + rng.randrange(blocks) * 65536 + rng.choice([0, 1, 7, 100, 30000, 65000, 65530, 65534, 65535])
        spots = set()
        used = rng.sample(range(blocks), rng.randint(1, blocks - 1))
        for b in used:
            for _ in range(rng.randint(1, 3)):
                x = first + b * 65536 + rng.choice([0, 1, 7, 100, 30000, 65000, 65530, 65534, 65535])
                h.do(1, rng.choice(["megabuf(%d)=%d", "%d[]=%d", "memset(%d,%d,2)"]) % (x, rng.randint(1, 9)))
                spots.add(x)
        set_, copy = h.comp(1, "memset(a,b,c)"), h.comp(1, "memcpy(a,b,c)")
        for _ in range(rng.randint(1, 3)):
            x = rng.choice(sorted(spots)) + rng.choice([0, -1, -5, -100, -3000]) if rng.random() < .5 else spot()
            k = rng.choice([2, 65535, 65536, 65537, 70000, 131072, 140000, 65536 - x % 65536, 131072 - x % 65536, rng.randrange(1, 200000), max(1, rng.choice(sorted(spots)) - x), max(1, rng.choice(sorted(spots)) - x + 1)])
            if op == "copy" or rng.random() < .15:
                y = rng.choice(sorted(spots)) + rng.choice([0, -1, -5, -3000]) if rng.random() < .6 else x + rng.choice([1, -1, 65536, -65536, 100, -100, 30000])
                for s, v in zip(sl, (x, y, k)):
                    h.set(s, v)
                h.run(copy)
                spots |= {x, x + k - 1, x + k, (y // 65536 + 1) * 65536 + x - y} | {e - y + x for e in list(spots) if y <= e < y + k}
            else:
                for s, v in zip(sl, (x, rng.choice([0, 0, 0, -0., 1, 2, .5]), k)):
                    h.set(s, v)
                h.run(set_)
                spots |= {x, x + k - 1, x + k}
            spots |= {(x // 65536 + 1) * 65536}
            if rng.random() < .1:
                h.free(1)
        scans(rng, h, {min(max(e, 0), 8388607) for e in spots}, n=14, which="m")
        hs.append(h.end(rng))
    return hs


def M02(rng, scale, variant="double"):
    hs = sparse(rng, int(60 * scale), "set", variant)
    for i in range(int(140 * scale)):
        h = Hist(variant)
        h.ctx(1)
        d, v, n = h.reg(1, "d"), h.reg(1, "v"), h.reg(1, "n")
        k = h.comp(1, rng.choice(["memset(d,v,n)", "r=memset(d,v,n)", "memset(d+0,v*1,n)", "exec2(memset(d,v,n),1)"]))
        spots = set()
        for j in range(rng.randint(2, 5)):
            x = idx(rng)
            cnt = rng.choice([0, 1, 2, 3, 5, 10, 100, 65535, 65536, 65537, 70000, 131072, 200000, -1, -5, 0.5, 1.9, 3.7]) if rng.random() < .85 else rng.choice([8388608, 8388607, 1e9, 1e18, 4294967296, 2147483648, 1e300, -1e18])
            if rng.random() < .2 and abs(x) < 1e9:
                cnt = 8388608 - x + rng.choice([-1, 0, 1, 5])
            if rng.random() < .12 and x >= 0:
                x = -rng.choice([1, 2, 3, 100, 70000])
                cnt = -x + rng.choice([-1, 0, 1, 5, 65536])
            if rng.random() < .06:
                x, cnt = rng.choice([(float("nan"), 3), (float("nan"), 70000), (3, float("nan")), (0, float("inf")), (8388000, float("inf")), (float("-inf"), 3), (float("-inf"), float("inf")), (float("inf"), 2)])
            h.set(d, x)
            h.set(v, rng.choice([0, j + 1, j + 1, j + 1.5, j - 8]) if rng.random() < .85 else rng.choice(EXTREME))
            h.set(n, cnt)
            h.run(k)
            for e in (x, x + cnt, x + cnt / 2, 0, 8388607, (int(min(max(x, 0), 8388607)) // 65536 + 1) * 65536 if abs(x) < 1e9 else 0):
                if abs(e) < 1e8:
                    spots.add(int(e))
        scans(rng, h, {min(max(s, 0), 8388607) for s in spots}, n=6, which="m")
        scans(rng, h, {0, 65536}, n=1, which="g")
        lo = max(0, min(spots) - 10)
        if scale > 1 or rng.random() < .25:
            h.scan("m", 1, min(lo, 8388000), min(lo + 40000, 8388608))
        hs.append(h.end(rng))
    consts = ["memset(0,1,5)", "memset(65530,2,12)", "memset(-3,3,5)", "memset(8388606,4,5)", "memset(10,5,0)", "memset(10,5,-2)", "memset(8388608,1,3)", "memset(-5,1,5)", "memset(-5,1,6)", "a=memset(3,7,2)", "memset(1.5,2,2.9)", "memset(131070,2,4);memset(131072,3,1)"]
    for ch in chunks(consts, 4):
        h = Hist(variant)
        h.ctx(1)
        h.reg(1, "a")
        for p in ch:
            h.do(1, p)
        scans(rng, h, {0, 10, 65536, 131072, 8388607}, n=5)
        hs.append(h.end(rng))
    return hs


def M03(rng, scale, variant="double"):
    hs = sparse(rng, int(60 * scale), "copy", variant)
    for i in range(int(150 * scale)):
        h = Hist(variant)
        h.ctx(1)
        d, s, n, b = h.reg(1, "d"), h.reg(1, "s"), h.reg(1, "n"), h.reg(1, "b")
        fill = h.comp(1, "i=0;loop(n,megabuf(b+i)=b+i+0.5;i+=1)")
        k = h.comp(1, rng.choice(["memcpy(d,s,n)", "memcpy(d+0,s,n)", "exec2(memcpy(d,s,n),0)"]))
        spots = set()
        base = rng.choice([0, 3, 65530, 65536, 131065, 8388590, 8388600, 65536 * 2 - 3, 65536 * 3 - 20])
        for e in range(rng.choice([1, 2])):
            h.set(b, base + e * rng.choice([0, 65536, 20]))
            h.set(n, rng.choice([8, 16, 24]))
            h.run(fill)
        # distinct far regions with fills so that block-sized copies are distinguishable
        if rng.random() < .5:
            h.do(1, "memset(%d,3,70000);memset(%d,4,10);memset(%d,5,3)" % (base, base + 65530, base + 30))
        for j in range(rng.randint(1, 4)):
            r = rng.random()
            src = base + rng.randint(-3, 12)
            dst = src + rng.choice([-1, 1, 2, -2, 3, 5, -5, 8, 65536, -65536, 65535, 65537, 100, 131072]) if r < .7 else idx(rng)
            cnt = rng.choice([0, 1, 2, 3, 5, 7, 10, 16, 20, 30, 65535, 65536, 65537, 65540, 70000, 131080, -1, 0.9, 2.5]) if rng.random() < .9 else rng.choice([8388608, 1e10, 1e18, -1e18, 4294967301, 2147483652])
            if rng.random() < .1:
                src = rng.choice([-1, -3, -10, 8388600, 8388608])
            if rng.random() < .1:
                dst = rng.choice([-1, -3, -10, 8388600, 8388608])
            if rng.random() < .05:
                odd = rng.choice([float("nan"), float("nan"), float("inf"), float("-inf"), 1e300])
                h.set(s, rng.choice([odd, base]))
                h.set(d, rng.choice([odd, base + 2]))
                h.set(n, rng.choice([odd, 5, 65540]))
                h.run(k)
            h.set(s, src)
            h.set(d, dst)
            h.set(n, cnt)
            h.run(k)
            c = min(abs(cnt), 9e6)
            spots |= {int(min(max(e, 0), 8388607)) for e in (src, dst, dst + c, src + c, dst + c / 2, (dst // 65536 + 1) * 65536, (src // 65536 + 1) * 65536 + dst - src) if abs(e) < 1e9}
        scans(rng, h, spots, n=8, which="m")
        lo = max(0, base - 20)
        h.scan("m", 1, lo, min(lo + 60, 8388608))
        hs.append(h.end(rng))
    return hs


def api_history(rng, variant="double", steps=25, focus=None, cells=EDGE):
    """A random history over several contexts, buffers, register arrays and codes."""
    h = Hist(variant)
    shim = variant == "shim"
    weights = {"ctx": 2, "dctx": 1, "buf": 1, "dbuf": .5, "dglob": .5, "reg": 2, "set": 3, "comp": 4, "run": 8, "dcode": 1.5, "free": 1, "reset": 1, "badcomp": .7, "err": .4, "scan": 1.5, "gram": .6 if shim else 0}
    weights.update(focus or {})
    live, nc, nb, orphan, compiled = [], 0, 0, [], set()
    grams = {}
    vars_ = ["a", "b", "c", "Abc", "x_1", "reg1"]
    names = vars_ + ["A", "B", "reg05", "REG05", "reg77", "reg123", "abc", "regxy"]

    def prog(c):
        spot = rng.choice(cells)
        v = lambda: rng.choice(["a", "b", "c", "abc", "reg05", "reg77", "x_1", "reg1"])
        val = lambda: rng.choice(["1", "2", "7.5", "a+1", "b*2", "c-1", "reg05+1", "megabuf(%d)" % rng.choice(cells), "gmem[%d]" % rng.choice(cells), v()])
        forms = ["%s=%s" % (v(), val()), "megabuf(%d)=%s" % (spot, val()), "gmem[%d]=%s" % (spot, val()), "gmegabuf(%d)+=%s" % (spot, val()), "reg05=%s" % val(), "reg77+=%s" % val(), "%s=megabuf(%d)" % (v(), spot), "%s=gmem[%d]" % (v(), spot),
                 "memset(%d,%s,%d)" % (spot, val(), rng.choice([1, 3, 10])), "memcpy(%d,%d,%d)" % (spot, rng.choice(cells), rng.choice([1, 4])), "a=a+1;b=b+a", "freembuf(%d)" % spot, "megabuf(%d)+=1;a=megabuf(%d)" % (spot, spot), "gmem[%d]+=1;c=gmem[%d]" % (spot, spot)]
        return ";".join(rng.sample(forms, rng.choice([1, 1, 2, 3])))

    for _ in range(steps):
        ops = [o for o in weights if weights[o] > 0]
        o = rng.choices(ops, [weights[x] for x in ops])[0]
        if not h.ctxs and o not in ("buf", "dbuf", "dglob", "dcode"):
            o = "ctx"
        cs = list(h.ctxs)
        c = rng.choice(cs) if cs else None
        if o == "ctx" and len(cs) < 5:
            nc += 1
            g = rng.choice([0, 0] + sorted(h.bufs)) if not shim else 0
            h.ctx(nc, g, rng.choice([0, 0, 1, 2]) if not shim else 0)
            grams[nc] = g
        elif o == "dctx" and cs:
            h.dctx(c)
            # code of the context can only be destroyed from now on
            orphan += [k for k in live if h.codes.get(k) == c]
            live = [k for k in live if h.codes.get(k) != c]
        elif o == "buf" and len(h.bufs) < 4:
            nb += 1
            h.buf(nb)
        elif o == "dbuf" and h.bufs:
            b = rng.choice(sorted(h.bufs))
            if all(grams[x] != b for x in cs):
                h.dbuf(b)
        elif o == "dglob" and all(grams[x] != 0 for x in cs):
            h.dglob()
        elif o == "gram" and h.bufs and c not in compiled:
            b = rng.choice(sorted(h.bufs))
            h.gram(c, b)
            grams[c] = b
        elif o == "reg":
            h.reg(c, rng.choice(names))
        elif o == "set" and h.slots:
            h.set(rng.choice(list(h.slots.values())), rng.choice(VALS if rng.random() < .9 else EXTREME))
        elif o == "comp":
            live.append(h.comp(c, prog(c)))
            compiled.add(c)
            h.run(live[-1])
        elif o == "badcomp":
            h.comp(c, rng.choice(["a=", "qq=1)", "newvar=foo(1)", "sin(1,2)", "@", "a=1;b=(2"]))
            compiled.add(c)
        elif o == "run" and live:
            h.run(rng.choice(live))
        elif o == "dcode" and (live or orphan):
            pool = orphan if orphan and (rng.random() < .5 or not live) else live
            k = rng.choice(pool)
            pool.remove(k)
            h.dcode(k)
        elif o == "free":
            h.free(c)
        elif o == "reset":
            h.reset(c)
        elif o == "err":
            h.err(c)
        elif o == "scan":
            x = rng.choice(cells)
            compiled.add(c)
            h.scan(rng.choice("mg"), c, max(0, x - 3), min(8388608, x + 4))
    for c in h.ctxs:
        for x in rng.sample(list(cells), 2):
            h.scan("m", c, max(0, x - 2), min(8388608, x + 3))
            h.scan("g", c, max(0, x - 2), min(8388608, x + 3))
    return h.end(rng)


FEW = (0, 1, 2, 65535, 65536, 8388607)


def M04(rng, scale, variant="double"):
    return [api_history(rng, variant, rng.choice([20, 35]), {"ctx": 4, "buf": 2, "scan": 2, "dctx": .7}, cells=FEW) for _ in range(int(120 * scale))]


def M05(rng, scale, variant="double"):
    hs = [api_history(rng, variant, rng.choice([20, 35]), {"free": 4, "dglob": 3, "dctx": 2, "scan": 3}, cells=FEW) for _ in range(int(90 * scale))]
    for i in range(int(12 * scale)):
        h = Hist(variant)
        h.ctx(1)
        h.ctx(2)
        a = h.reg(1, "a")
        h.reg(1, "reg50")
        ks = [h.comp(1, "megabuf(%d)=a;gmem[%d]=a;reg50=a" % (x, x)) for x in FEW]
        kr = [h.comp(1, "a=megabuf(%d)" % x) for x in FEW]
        k2 = h.comp(2, "memset(0,3,70000);gmem[5]=1")
        for rounds in range(3):
            h.set(a, rounds + 4)
            for k in rng.sample(ks, 4):
                h.run(k)
            h.run(k2)
            if rng.random() < .4:
                h.do(1, "freembuf(%d)" % rng.choice(FEW))
            else:
                h.free(rng.choice([1, 1, 2]))
            for k in rng.sample(kr, 2):
                h.run(k)
            scans(rng, h, set(FEW), (1, 2), n=3)
        h.dctx(1)
        h.dctx(2)
        for k in list(h.codes):
            h.dcode(k)
        h.dglob()
        h.ctx(3)
        h.reg(3, "reg50")
        h.reg(3, "a")
        h.do(3, "a=gmem[%d]+reg50;gmem[1]=2" % rng.choice(FEW))
        scans(rng, h, set(FEW), (3,), n=6)
        hs.append(h.end(rng))
    return hs


# pairs of names which a popular string hash (polynomials, FNV, Jenkins, ELF, rotations, CRC-32, Adler-32, Murmur3) does not tell apart
SAME_HASH = [tuple(p.split("/")) for p in (
    "aalhanm/sjjat aavodln/ahiueip aaxqamf/acqntbf abvm/acem acjc/agrg aebhhqh/azcndi aegep/aflls agkoo/amrkj agnq/agoa aihiq/akhcm ailiyp/ttdaryl aiui/ajcz akecfa/akeebc akgwiew/amkhtbx "
    "amuoyun/judwfjv anzvodv/tvuwp aqby/aqci arct/bast astm/bbtm atyajah/oqaaefs auptrpe/pkizw avwlp/mzjput bbsv/bccv bcfaa/nghthik biwjldy/jcndqij blpbith/lnbdakm bmobd/vlhadi brfnkv/zxwlwk "
    "buwlg/zvsmvsr bweh/rhxemz cbxc/ccft cceigk/dnajnzg ccuwvku/gtyegcc cnsre/prmeyv cqdgxil/qxqfz cxnzmlg/yrzcdkt dbjjaik/xtrhtmj dkcltm/fkfvat duidtf/iaglk dwuepve/hcxnzgj efed/nsrxctc "
    "eqszulg/tbuxqvs erugfs/rnhwdsh exujbfl/lmdruxt fqahmhk/lwvuv fqpdifj/nhoo fqpfcba/ljkl ftwxyqi/jkairbu gmfhmmn/himauv gtiesun/qjjnqgv hlopouc/yoctbvs hlsfrh/tngdmk hqxi/llnm hvhy/vvbghxj "
    "hwmfl/xwmfm hyncqm/iyncqk iaxqwsi/jooaaev ipoce/mmcoe iteox/thhuuxg ixch/muwl iymr/mtav jgzngb/pznxcw jomnjj/momnjd kihlqe/uytsffy knhpxlv/wnhpxls kxttx/zaeczbn loag/yjylju loilhp/oeslcr "
    "lvvdhvd/uoomoza lyxx/viguqcb mdxnl/yjseqjm mkbjkkg/uzasykz mtcoyaj/utcoyal mtxh/pmtxo ngdhsg/opojc ninmhu/paijk nopxp/rvegvu nrjpvec/vrjpvea nsvn/pnsvi ojcwqup/wetxqhb oprxsy/vuugn "
    "pdjrr/yaya pdqcxm/yhjgm poqt/rppovc rcjxx/ssapoan recow/saikx rmhyyr/zwkkgu rmnslao/sotf sidswj/twxrumm sp7xz/sp7z0 sp_mz/sp_o0 spa3q/spa4a spa4r/spa64 spa6v/spa86 spa7k/spcwk spafx/spbhy "
    "spark/spc2k spat_/spbbp spawd/spbye spazw/spbxx spb3k/spc5l spbl7/spcj8 spblo/spbn1 spbtr/spbub spbwk/spd9k spc2p/spc42 spciu/spdgv spcqg/spct7 spcsp/spe5p spctk/spcw8 spcuh/spe5h "
    "spcw0/spe7n spcwe/spe1e spcy5/spe5w spd2d/spfrd spdiz/spdji spdq7/spf17 spdqv/spds4 spdzc/spf8c spe1u/spe33 spebu/sped7 spelk/sper5 spenw/uhqfy speqt/spes2 spfiw/spfk5 spqyb/sp1yc "
    "sprg1/sp2g2 sprl5/sp2l6 tgvq/tukcpo tqyxydx/uzyxybf trnkkx/xtrnkkf txsekax/xsekae tzbgidg/zbgidz ubvsaiz/vrqetr umrwvfw/znkxrbg umsoscv/xxkcllz vfzeopn/ygdxxku vlxvu/vxivpx vvrdufg/xrntgjg "
    "vzihqof/wzihqmf wvgklk/xwvgkkm xczj/xe0j zhphds/zwlpipq ").split()]


def collisions(rng):
    """An index of variables may use a hash, but must not rely on it: pairs of the table, also continued and prefixed."""
    groups = []
    for x, y in SAME_HASH:
        groups.append(((x, y), rng.choice([lambda n: n, lambda n: n, lambda n: n + "_x", lambda n: "ab" + n, lambda n: n + "1", lambda n: "q" + n + "s"])))
    return [(f(x), f(y)) for (x, y), f in groups]


def hashed(rng, scale, variant):
    """Different names with equal hashes: variables of one context; and names hashed as a function is."""
    hs = []
    groups = collisions(rng)
    rng.shuffle(groups)
    for part in chunks(groups, 6):
        h = Hist(variant)
        h.ctx(1)
        for j, (x, y) in enumerate(part):
            if x in FUNCS + ["gmem"] or y in FUNCS + ["gmem"]:
                continue
            h.do(1, "%s=%d;%s=%d" % (x, 2 * j + 1, recase(rng, y), 2 * j + 2))
            h.do(1, "%s*1000+%s" % (recase(rng, x), y))
            h.reg(1, x), h.reg(1, y)
        hs.append(h.end(rng))
    like = []
    for f in FUNCS:
        for at in range(len(f) - 1):
            for m in (31, 33, 37):
                for d in (-2, -1, 1, 2):
                    g = f[:at] + chr(ord(f[at]) + d) + chr(ord(f[at + 1]) - d * m) + f[at + 2:] if 0 < ord(f[at + 1]) - d * m < 128 else ""
                    if re.fullmatch("[a-z_][a-z0-9_]*", g) and g not in FUNCS:
                        like.append(g)
        for g in (f[::-1], f[1:] + f[0], f + f[-1], f[:-1], f[0] + f, f[:-1] + "_", "_" + f, f[:1] + "_" * (len(f) - 2) + f[-1:]):
            if re.fullmatch("[a-z_][a-z0-9_]*", g) and g not in FUNCS + ["gmem"]:
                like.append(g)
    like = sorted(set(like))
    for part in chunks(rng.sample(like, min(len(like), int(40 * scale))), 12):
        h = Hist(variant)
        h.ctx(1)
        for j, x in enumerate(part):
            h.do(1, "%s=%d;%s+1" % (x, j + 1, recase(rng, x)))
        h.do(1, part[0] + "(1)")
        h.reg(1, part[-1])
        hs.append(h.end(rng))
    return hs


def V01(rng, scale, variant="double"):
    hs = hashed(rng, scale, variant)
    pool = ["a", "A", "b", "ab", "AB", "aB", "abc", "abcd", "a1", "a_", "_a", "_A", "a1b", "x", "xx", "xxx", "variable_name", "VARIABLE_NAME", "variable_nam", "variable_name2", "reg1", "reg", "REG", "reg100", "reg0", "regab", "sinx", "ifx", "gmemx", "e", "pi", "a__", "__",
            "averyveryveryveryverylongvariablenamewithmanycharacters", "averyveryveryveryverylongvariablenamewithmanycharacterS", "averyveryveryveryverylongvariablenamewithmanycharacter", "t1", "t2", "T1", "q31", "q32", "Q32",
            "i", "I", "ii", "Ii", "size_i", "IDX", "idx", "k", "K", "s", "S"]
    for n in rng.sample([15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 257, 1000], 4):
        pool += ["v" * (n - 1) + "a", "v" * (n - 1) + "B", "V" * (n - 1) + "a", "v" * n + "a"]
    for i in range(int(110 * scale)):
        h = Hist(variant)
        h.ctx(1)
        if rng.random() < .4:
            h.ctx(2)
        names = rng.sample(pool, rng.randint(3, 8))
        for _ in range(rng.randint(8, 20)):
            c = rng.choice(list(h.ctxs))
            n = rng.choice(names)
            n = recase(rng, n) if rng.random() < .5 else n
            r = rng.random()
            if r < .3:
                h.reg(c, n)
            elif r < .45 and h.slots:
                h.set(rng.choice(list(h.slots.values())), rng.choice(WIDE))
            elif r < .9:
                m = rng.choice(names)
                h.do(c, rng.choice(["%s=%s+1", "%s=%s", "%s+=%s", "%s=5;%s", "%s=%s*2"]) % (n, recase(rng, m) if rng.random() < .5 else m))
            elif r < .95:
                h.reset(c)
            else:
                h.comp(c, rng.choice(["%s=newname_%d)", "%s=q%d+", "zz%d=%s("[0:0] + "%s=%d;)"]) % (n, rng.randrange(9)))
        for n in names:
            h.reg(rng.choice(list(h.ctxs)), n)
        hs.append(h.end(rng))
    # permutations of the same letters
    for i in range(int(6 * scale)):
        h = Hist(variant)
        h.ctx(1)
        n = "".join(rng.choice("abcdefgh_xyz") for _ in range(rng.choice([2, 4, 7, 8, 12, 20])))
        names = {n} | {"".join(rng.sample(n, len(n))) for _ in range(6)} | {n[:k] + n[k + 1:k + 2] + n[k:k + 1] + n[k + 2:] for k in range(len(n))} | {n[::-1], n + n[0], n[1:] + n[0]}
        names = sorted(x for x in names if x[0] != "_")[:14]
        for j, x in enumerate(names):
            h.do(1, "%s=%d" % (recase(rng, x), j + 1))
            if rng.random() < .5:
                h.reg(1, x)
        for x in names:
            h.do(1, x)
            h.reg(1, recase(rng, x))
        hs.append(h.end(rng))
    # contexts which come and go
    for i in range(int(20 * scale)):
        h = Hist(variant)
        if rng.random() < .5:
            h.ops.append("U %d" % rng.choice([0, 33, 90]))
        names = rng.sample(["a", "b", "x1", "reg05", "variable_name"], 3)
        h.ctx(1)
        for c in range(2, 7):
            for _ in range(rng.randint(1, 5)):
                d = rng.choice(list(h.ctxs))
                if rng.random() < .4:
                    h.set(h.reg(d, rng.choice(names)), rng.choice(VALS))
                else:
                    h.do(d, rng.choice(["%s=%s+1", "%s+=2;%s", "r=%s;%s=3"]) % (rng.choice(names), rng.choice(names)))
            if rng.random() < .8:
                h.dctx(rng.choice(list(h.ctxs)))
            h.ctx(c)
        hs.append(h.end(rng))
    # many variables
    h = Hist(variant)
    h.ctx(1)
    m = rng.choice([260, 420])
    for at in range(0, m, 20):
        h.do(1, ";".join("w%d=%d" % (i, i + 1) for i in range(at, at + 20)))
    for i in rng.sample(range(m), 60) + [0, m - 1]:
        h.do(1, "W%d" % i)
    for i in rng.sample(range(m), 30) + [0]:
        h.reg(1, "W%d" % i)
    hs.append(h.end(rng))
    h = Hist(variant)
    h.ctx(1)
    for i in range(150):
        if i % 3:
            h.reg(1, "v%d" % i)
        h.do(1, "v%d=%d" % (i, i + 1))
    for i in rng.sample(range(150), 60):
        h.reg(1, "V%d" % i)
    h.do(1, "s=" + "+".join("v%d" % i for i in range(150)))
    h.reg(1, "s")
    hs.append(h.end(rng))
    hs += large(rng, int(14 * scale), variant, ["name", "name", "list", "statements"], .1)
    return hs


def V02(rng, scale, variant="double"):
    hs = []
    odd = ["rex12", "ray10", "geg10", "rag00", "r_g55", "reh99", "rEf98", "xeg01", "reg", "reg0", "reg1", "reg9", "reg000", "reg100", "reg123", "reg0a", "rega0", "reg 1"[0:3], "regaa", "re00", "reg_1", "reg1_", "regg00", "areg00", "reg00a", "_reg00", "reg001", "reg99a", "rég"[0:1], "reg0_", "r00", "reg990"]
    for i in range(int(40 * scale)):
        h = Hist(variant)
        arr = rng.choice([0, 1, 2]) if variant != "shim" else 0
        h.ctx(1, 0, arr)
        if rng.random() < .6:
            h.ctx(2, 0, rng.choice([arr, 0, 3]) if variant != "shim" else 0)
        for _ in range(rng.randint(10, 25)):
            c = rng.choice(list(h.ctxs))
            n = "reg%02d" % rng.choice([0, 1, 9, 10, 11, 55, 90, 98, 99, rng.randrange(100)]) if rng.random() < .75 else rng.choice(odd)
            n = recase(rng, n) if rng.random() < .4 else n
            r = rng.random()
            if r < .35:
                h.reg(c, n)
            elif r < .5 and h.slots:
                h.set(rng.choice(list(h.slots.values())), rng.choice(WIDE))
            elif r < .95:
                h.do(c, rng.choice(["%s=%s", "%s+=1", "a=%s;b=%s", "%s=%s+2"]).replace("%s", n, 1).replace("%s", rng.choice(["reg%02d" % rng.randrange(100), "a", "7"])))
            else:
                h.reset(c)
        hs.append(h.end(rng))
    for arr in ((0, 1) if variant != "shim" else (0,)):
        h = Hist(variant)
        h.ctx(1, 0, arr)
        for i in range(100):
            if arr:
                h.do(1, "reg%02d=%d" % (i, i + 1))
            else:
                h.reg(1, "ReG%02d" % i)
        for i in range(100):
            if arr:
                h.reg(1, "reg%02d" % i)
            else:
                h.do(1, "rEg%02d=%d" % (i, i + 1))
        for n in odd:
            h.do(1, "%s=%s+1000" % (n, n))
        h.do(1, "s=" + "+".join("reg%02d" % i for i in range(100)))
        h.reg(1, "s")
        hs.append(h.end(rng))
    return hs


def V03(rng, scale, variant="double"):
    hs = [api_history(rng, variant, rng.choice([20, 30]), {"reset": 4, "reg": 4, "set": 4}, cells=FEW) for _ in range(int(90 * scale))]
    for i in range(int(8 * scale)):
        h = Hist(variant)
        h.ctx(1, 0, 1 if variant != "shim" and rng.random() < .5 else 0)
        h.ctx(2)
        n = 130 if i == 0 else rng.randint(1, 40)
        for c in (1, 2):
            for j in range(n):
                if rng.random() < .6:
                    h.set(h.reg(c, "v%d" % j), j + c if rng.random() < .8 else rng.choice(EXTREME))
            h.set(h.reg(c, "reg10"), 8)
        ks = [h.do(c, ";".join("v%d=v%d+%d" % (j, j, j + 1) for j in range(n)) + ";reg10+=1;megabuf(2)+=1;gmem[2]+=1") for c in (1, 2)]
        for _ in range(3):
            h.reset(rng.choice([1, 2]))
            for k in ks:
                h.run(k)
        for c in (1, 2):
            for j in range(n):
                h.reg(c, "V%d" % j)
            scans(rng, h, {2}, (c,), n=1)
        hs.append(h.end(rng))
    return hs


def A01(rng, scale, variant="double"):
    hs = [api_history(rng, variant, rng.choice([15, 30, 45]), {"dctx": 3, "dcode": 3, "ctx": 4, "buf": 2, "dbuf": 2, "dglob": 1.5, "badcomp": 3, "comp": 6}, cells=FEW) for _ in range(int(100 * scale))]
    # failing compilations of all kinds leave nothing behind
    progs = []
    for i in range(int(250 * scale)):
        g = Gen(rng, vars=["a", "b", "x1"], depth=rng.choice([1, 2, 3]), spell=.3)
        t = mutate(rng, tokens(text(g.program(3), "min", rng)), rng.choice([1, 1, 2]))
        if rng.random() < .2:
            f = rng.choice(FUNCS)
            t = t + [";", "a", "=", f, "(", "a", ",", "(", "b", ";", "1", ")", ")"][:rng.randint(1, 13)]
        progs.append(trivia(rng, t, .1))
    for ch in chunks(progs, 10):
        h = Hist(variant)
        h.ctx(1)
        for p in ch:
            h.comp(1, p)
        hs.append(h.end(rng))
    for i in range(int(20 * scale)):
        h = Hist(variant)
        for c in range(1, 6):
            h.ctx(c)
            g = Gen(rng, vars="abc", depth=3)
            for _ in range(4):
                h.do(c, style(rng, g.program(3)))
            h.do(c, "memset(%d,1,%d);gmem[%d]=1" % (rng.choice(FEW), rng.choice([1, 70000]), rng.choice(FEW)))
        hs.append(h.end(rng))
    hs += large(rng, int(16 * scale), variant, errors=.4)
    return hs


def A02(rng, scale):
    hs = [api_history(rng, "shim", rng.choice([20, 35]), {"gram": 3, "buf": 3, "ctx": 3}, cells=FEW) for _ in range(int(70 * scale))]
    hs += L01(rng, .15 * scale, "shim") + L09(rng, .12 * scale, "shim") + L10(rng, .2 * scale, "shim") + V01(rng, .2 * scale, "shim") + V02(rng, .3 * scale, "shim") + M01(rng, .2 * scale, "shim") + V03(rng, .15 * scale, "shim") + M05(rng, .15 * scale, "shim")
    return hs


# ------------------------------------------------------------------------------------------------ faults
def F01(rng, scale, variant="double"):
    hs = []
    for i in range(int(110 * scale)):
        h = Hist(variant)
        own = rng.random() < .5 and variant != "shim"
        if own:
            h.buf(1)
        h.ctx(1, 1 if own else 0)
        if rng.random() < .4:
            h.ctx(2, 1 if own else 0)
        for n in "abc":
            h.reg(1, n)
        cells = [0, 5, 65535, 65536, 131071, 131072, 8388607]
        for phase in range(rng.choice([2, 3, 4])):
            for _ in range(rng.randint(1, 5)):
                c = rng.choice(list(h.ctxs))
                x, y = rng.sample(cells, 2)     # (copying cells to themselves need not touch them)
                h.do(c, rng.choice(["megabuf({x})={v}", "gmem[{x}]={v}", "a=megabuf({x})", "b=gmem[{x}]", "megabuf({x})+={v}", "gmem[{x}]-={v}", "c=(megabuf({x})={v})", "memset({x},{v},{n})", "memcpy({x},{y},{n})", "if(a,megabuf({x}),gmem[{y}])={v}", "a={x}[]",
                                    "assign(megabuf({x}),{v});a=megabuf({x})", "megabuf({x})=megabuf({y})+{v}", "gmem[{x}]=gmem[{y}]+{v}", "loop(3,megabuf({x}+c)=c;c+=1)", "megabuf({x})=5;megabuf({y})=6;a=megabuf({x})", "memset({x},{v},{n});a=megabuf({x})"]).format(
                    x=x, y=y, v=rng.choice([1, 2.5, -3]), n=rng.choice([1, 2, 10, 65536])))
            h.fault(phase % 2 == 0)
        h.fault(False)
        for _ in range(2):
            x = rng.choice(cells)
            h.do(1, "megabuf(%d)=9;a=megabuf(%d);gmem[%d]=8;b=gmem[%d]" % (x, x, x, x))
        scans(rng, h, set(cells), list(h.ctxs), n=3)
        hs.append(h.end(rng))
    return hs


def fresh_failures(rng, variant="double"):
    """The first context fails."""
    hs = []
    for k in [*range(1, 260), *range(-259, 0)]:      # (negative: only that allocation fails)
        h = Hist(variant)
        h.ctx(1, fail=k)
        if rng.random() < .5:
            h.dctx(1)
            h.dglob()
            h.ctx(3, fail=k)
        h.ctx(2)
        h.reg(2, "b")
        h.do(2, "b=b+2;gmem[2]=b;megabuf(70000)=b")
        h.scan("g", 2, 0, 5)
        hs.append(h.end(rng))
    return hs


def F02(rng, scale, variant="double"):
    hs = fresh_failures(rng, variant)
    ks = list(range(1, 260)) + list(range(-259, 0))
    if scale < 1:
        ks = sorted(rng.sample(ks, int(520 * scale)))
    for ch in chunks(ks, 13):
        h = Hist(variant)
        first = rng.random() < .5
        if first:
            h.ctx(30)
            h.set(h.reg(30, "a"), 4)
            k0 = h.do(30, "a=a+1;gmem[3]=a;megabuf(1)=a;reg20=a")
        own = rng.random() < .3 and variant != "shim"
        if own:
            h.buf(1)
        for j, f in enumerate(ch):
            h.ctx(1 + j, 1 if own else 0, rng.choice([0, 1]) if variant != "shim" else 0, fail=f)
        if first:
            h.run(k0)
            h.scan("g", 30, 0, 5)
            if rng.random() < .5:
                h.do(30, "gmem[70000]=3")
        h.ctx(29, 1 if own else 0)
        h.reg(29, "b")
        h.do(29, "b=b+2;gmem[2]=b;megabuf(70000)=b")
        h.scan("g", 29, 0, 5)
        hs.append(h.end(rng))
    return hs


# ------------------------------------------------------------------------------------------------ threads
def schedule(rng, n):
    """Preemption points: mostly near allocations and uses of the lock."""
    res = []
    t = rng.randrange(n)
    for _ in range(rng.choice([1, 1, 2, 2, 3, 5])):
        res.append((t, rng.randrange(1 << 20) if rng.random() < .75 else -rng.randrange(1, 1 << 20)))
        t = rng.choice([x for x in range(n) if x != t])
    return res


def points(rng, n, most=12):
    """Preemptions at points of synchronisation."""
    res, t = [], rng.randrange(n)
    for _ in range(rng.choice([1, 2, 2, 3, 4])):
        res.append((t, rng.randint(1, rng.choice([3, most]))))
        t = rng.choice([x for x in range(n) if x != t])
    return res


def C01(rng, scale, variant="double"):
    hs = []
    for i in range(int(260 * scale)):
        h = Hist(variant)
        own = rng.random() < .5
        if own:
            h.buf(1)
        n = rng.choice([2, 2, 2, 3])
        for c in range(1, n + 1):
            h.ctx(c, 1 if own else 0)
            for v in "ai":
                h.reg(c, v)
        base = rng.choice([0, 65535 - 4, 65536, 131072, 8388608 - 16])
        cell = lambda t, j: base + t + 4 * j
        written = {t: [] for t in range(n)}
        if rng.random() < .3:
            t = rng.randrange(n)
            h.do(t + 1, "gmem[%d]=%d" % (cell(t, 0), 90 + t))

        def work(t):
            def program():
                j = rng.randrange(3)
                written[t].append(cell(t, j))
                return rng.choice(["gmem[{x}]={v}", "gmegabuf({x})={v}", "gmem[{x}]+={v}", "a=gmem[{x}];gmem[{x}]={v}", "gmem[{x}]={v};a=gmem[{x}]", "a=gmegabuf({x})+1;gmem[{y}]=a", "i=0;loop(3,gmem[{x}+4*i]=i+{v};i+=1)", "assign(gmem[{x}],{v});assign(gmegabuf({y}),{v}+1)", "gmem[{x}+70000]={v};a=gmem[{x}+70000];gmem[{x}]=a"]).format(
                    x=cell(t, j), y=cell(t, (j + 1) % 3), v=rng.randint(1, 60))
            ready = [h.comp(t + 1, program()) for _ in range(2)]

            def f():
                for _ in range(rng.choice([1, 1, 2])):
                    if rng.random() < .8:
                        h.run(ready[rng.randrange(2)])
                    else:
                        h.do(t + 1, program())
            return f
        parts = [work(t) for t in range(n)]
        h.threads(parts, schedule(rng, n))
        for c in range(1, n + 1):
            h.scan("g", c, base, min(base + 16, 8388608))
            if base + 70016 < 8388608 and rng.random() < .5:
                h.scan("g", c, base + 70000, base + 70016)
        for t in range(n):
            h.do(t + 1, ";".join("a=gmem[%d]" % x for x in (written[t] or [0])[:4]))
        hs.append(h.end(rng))
    return hs


def C02(rng, scale, variant="double"):
    """The lock is observed in every history; here with everything that uses it, alone, in threads and failing."""
    hs = F01(rng, .3 * scale, variant) + M05(rng, .3 * scale, variant) + C01(rng, .35 * scale, variant) + C03(rng, .2 * scale, variant) + F02(rng, .9, variant)
    for i in range(int(60 * scale)):
        h = Hist(variant)
        if rng.random() < .3:
            h.buf(1)
        h.ctx(1, 1 if h.bufs else 0)
        h.ctx(2, rng.choice([0, 1]) if h.bufs else 0)
        for c in (1, 2):
            h.reg(c, "a")
        for _ in range(6):
            c = rng.choice([1, 2])
            x = rng.choice([0, 5, 65535, 65536, 131072, 8388607, 8388608, -1, 1e12])
            h.do(c, rng.choice(["megabuf({x})=1", "gmem[{x}]=2", "a=megabuf({x})", "a=gmem[{x}]", "memset({x},3,{n})", "memcpy({x},0,{n})", "memcpy(0,{x},{n})", "freembuf({x})", "megabuf({x})=gmem[{x}]", "gmem[megabuf({x})]=megabuf(gmem[{x}])"]).format(x="%.0f" % x, n=rng.choice([0, 1, 70000, 200000, -1])))
            if rng.random() < .3:
                h.free(c)
            if rng.random() < .1:
                h.reset(c)
        hs.append(h.end(rng))
    return hs


def C03(rng, scale, variant="double"):
    hs = []
    for i in range(int(130 * scale)):
        h = Hist(variant)
        if rng.random() < .35:                 # one existed before
            h.ctx(9)
            h.do(9, "gmem[1]=70")
            h.dctx(9)
            h.dglob()
        elif rng.random() < .15:               # one still exists
            h.ctx(9)
            h.do(9, "gmem[1]=70")
        n = rng.choice([2, 2, 3])

        def work(t):
            c = t + 1

            def f():
                h.ctx(c)
                if rng.random() < .6:
                    h.do(c, "gmem[%d]=%d" % (10 + t, 5 + t))
            return f
        if i % 3 == 0:
            h.threads([work(t) for t in range(n)], points(rng, n), points=True)
        else:
            h.threads([work(t) for t in range(n)], [(t, p if rng.random() < .7 else 60 * 4 + p % 480) for t, p in schedule(rng, n)])
        for t in range(n):
            h.do(t + 1, "gmem[%d]=%d" % (20 + t, 40 + t))
        for t in range(n):
            h.scan("g", t + 1, 0, 25)
        for t in range(n):
            h.dctx(t + 1)
        if 9 in h.ctxs:
            h.scan("g", 9, 0, 25)
            h.dctx(9)
        h.dglob()
        if rng.random() < .3:
            h.ctx(1)
            h.scan("g", 1, 0, 25)
        hs.append(h.end(rng))
    return hs


def rand_race(rng, variant, part):
    """Two threads drawing random numbers when the generator starts or starts over.  part: where the first is
    interrupted, in 0..1."""
    h = Hist(variant)
    ks = []
    names = ["r%d" % i for i in range(20)]
    for c in (1, 2):
        h.ctx(c)
        h.reg(c, "r0")
        ks.append(h.comp(c, "r0=rand(%d)" % rng.choice([2, 10, 1000])))
    many = h.comp(1, ";".join("%s=rand(100)" % n for n in names))
    warm = 623 if rng.random() < .9 else rng.choice([0, 622, 624])
    for _ in range(warm // 20):
        h.run(many, 0, [h.var(1, n) for n in names])
    for _ in range(warm % 20):
        h.run(ks[0], 0, [h.var(1, "r0")])

    def f(c):
        return lambda: h.run(ks[c - 1], 0, [h.var(c, "r0")])
    h.threads([f(1), f(2)], [(0, -max(1, int(part * (1 << 20)))), *rng.choice([[(1, -1)], [(1, -1)], [(1, -1)], [(1, -rng.randrange(1, 1 << 20)), (0, -rng.randrange(1, 1 << 20))]])])
    for _ in range(2):
        for c in (1, 2):
            h.run(ks[c - 1], 0, [h.var(c, "r0")])
    return h.end(rng)


ONCE = ["sin(a)", "cos(a)", "tan(a)", "asin(a/100)", "acos(a/100)", "atan(a)", "atan2(a,b)", "sqr(a)", "sqrt(a)", "pow(a,b)", "exp(a/9)", "log(a)", "log10(a)", "abs(-a)", "min(a,b)", "max(a,b)", "sign(a)", "floor(a/3)",
        "int(a/3)", "ceil(a/3)", "invsqrt(a)", "sigmoid(a,b)", "band(a,b)", "bor(a,0)", "exec2(c=a,b)", "exec3(c=a,a,b+c)", "a+b*c-a/b", "a%3", "a&b", "a|b", "-a", "!a", "a<b", "a>b", "a<=b", "a>=b", "a==b", "a!=b", "a&&b",
        "0||b", "if(a>b,a,b)", "a>b?b:a", "loop(a,c+=b)", "(c=a;while(c-=1);c)", "(c=a;c+=b;c)", "c=a", "(c=a;c-=b)", "(c=a;c*=b)", "(c=a;c/=b)", "(c=a;c%=b)", "(c=a;c|=b)", "(c=a;c&=b)", "(c=a;c^=2)", "megabuf(a)=b",
        "(memset(a,b,3);megabuf(a+1))", "(memset(0,a,5);memcpy(b,0,3);megabuf(b+1))", "(megabuf(1)=a;freembuf(0);megabuf(1))", "1.5e1*a+$pi", "a=a+1;b=a;c=b*2;a+b+c"]


def weave(rng, variant, text):
    """Threads executing the same text, switched every few instructions."""
    h = Hist(variant)
    n = rng.choice([2, 2, 3])
    ks = []
    xs = rng.sample([1, 2, 3, 4, 7, 9, 16, 30, 64], 2 * n)
    tol = 2 if "invsqrt" in text else 6
    form = rng.choice(["r=%s", "r=%s", "(%s)+0", "r=1;2*(%s)", "b-=1;%s"])     # the result may be no variable's value
    for c in range(1, n + 1):
        h.ctx(c)
        for v, x in zip("abcr", [xs[2 * c - 2], xs[2 * c - 1], 0, 0]):
            h.set(h.reg(c, v), x)
        ks.append(h.comp(c, form % text))
    fine = rng.choice([50, 100, 200])

    def f(c):
        def work():
            for i in range(3):
                h.run(ks[c - 1], tol)
            if rng.random() < .1:
                h.do(c, "r=%s" % text, 1, tol)
        return work
    segs, t = [], 0
    for _ in range(6 * fine if fine < 200 else 1000):
        segs.append((t, -rng.randint(1, (1 << 20) // fine)))
        t = (t + rng.randint(1, n - 1)) % n
    h.threads([f(c) for c in range(1, n + 1)], segs, compilations=rng.random() < .3)
    for k in ks:
        h.run(k, tol)
    return h.end(rng)


def computed(rng, t):
    """The text with computed values in place of some variables."""
    return re.sub(r"\b([ab])\b(?!\s*(=[^=]|[-+*/%|&^]=))", lambda m: rng.choice(["(%s+0)", "(1*%s)", "min(%s,999)", "%s"]) % m[1], t)


def calls(rng, variant, kind, common=None):
    """Two threads making the same call again and again; each stops anywhere in it while the other one makes about one."""
    h = Hist(variant)
    parts = []
    for c in (1, 2):
        h.ctx(c)
        xs = rng.sample([1, 2, 3, 4, 7, 9, 16, 30, 64], 3)
        for v, x in zip("abcr", xs + [0]):
            h.set(h.reg(c, v), x)
        if kind in ("run", "comp"):
            t = (common or rng.choice(ONCE)).replace("loop(a", "loop(2").replace("gmem", "megabuf")
            t = computed(rng, t) if rng.random() < .6 else t
            t = "r=" + t if rng.random() < .6 or kind == "comp" else rng.choice(["(%s)+0", "r=1;2*(%s)", "-(%s)"]) % t
        if kind == "run":
            if common == "":
                t = "r=(megabuf(a*65536)=b);megabuf(a*65536)+megabuf(a)"
            k, tol = h.comp(c, t), 2 if "invsqrt" in t else 6
            parts.append(lambda k=k, tol=tol: [h.run(k, tol) for _ in range(20)])
            continue
        if kind == "comp":
            tol = 2 if "invsqrt" in t else 6
            ts = [rng.choice(["", "b;", "1+2*3;", "c+=1;"]) + t, rng.choice(["r=a*2+1", "r=(1+2)*b", "r=sin(0)+a", "r=a+b+(1+2+3+4)*(5+6+7)", "1+2+3*4*5+6*7", "r=max(1,2)+max(a,b)", "1;2;a", "(a=1;2)+3", "r=min(2,3)+max(a,b)", t])]
            if common:
                ts = [["r=a+b", "r=b*a+c"], ["1+2+3+4+5*6+7+8", "r=(1+2+3)*(4+5+6)*(7+8+9)"]][c - 1]

            def f(c=c, ts=ts, tol=tol):
                for i in range(8):
                    k = h.comp(c, ts[i % 2])
                    h.set(h.var(c, rng.choice("ab")), rng.choice([1, 2, 3, 4, 7, 9, 16, 30, 64]))
                    h.run(k, tol)
                    if rng.random() < .5:
                        h.dcode(k)
        elif kind == "error":
            ts = ["\n" * rng.randrange(9) + " " * rng.randrange(30) + rng.choice([")", "a b", "1 2", "sin(1,2)", "a=", "*", "nofn(1)", "x=@"]) for _ in range(2)]

            def f(c=c, ts=ts):
                for i in range(10):
                    h.comp(c, ts[i % 2])
                    h.err(c)
        elif kind == "reg":
            ns = ["".join(rng.choice("abAB_") for _ in range(rng.choice([3, 6, 20]))) for _ in range(5)] + ["reg%02d" % (c * 10 + i) for i in range(2)]

            def f(c=c, ns=ns):
                for i in range(14):
                    h.set(h.reg(c, ns[i % 7]), i + c)
        elif kind == "state":
            def f(c=c):
                k = h.comp(c, "megabuf(5)=a;megabuf(200000)=1;b=megabuf(6)+1;r+=2")
                for i in range(5):
                    h.run(k)
                    h.free(c)
                    h.run(k)
                    h.reset(c)
        else:
            def f(c=c):
                for i in range(3):
                    h.ctx(10 * c)
                    h.do(10 * c, "a=%d;b=a+megabuf(a)" % c)
                    h.dctx(10 * c)
        parts.append(f)
    n = {"run": 20, "comp": 8, "error": 10, "reg": 14, "state": 10}.get(kind, 3)
    if kind == "run" and rng.random() < .1:
        segs = [(0, -rng.randint(1, (1 << 20) // n))]
        for i in range(2 * n + 3):
            segs.append((1 - segs[-1][0], -int((1 << 20) / n * rng.choice([rng.uniform(.6, 1.4), rng.uniform(.02, 2.4)]))))
        h.threads(parts, segs, compilations=True)
    else:
        segs, t = [], 0
        for i in range(rng.choice([2 * n, 60, 200])):
            segs.append((t, -int((1 << 20) / n * rng.choice([rng.uniform(.6, 1.4), rng.uniform(.02, 2.4), rng.uniform(0, .1)])), int(2 ** rng.uniform(0, 9))))
            t = 1 - t
        h.threads(parts, segs, compilations=True, functions=True)
    for c in (1, 2):
        h.scan("m", c, 0, 12)
        h.do(c, "a=a+1;b=a*2")
    return h.end(rng)


def C04(rng, scale, variant="double"):
    n = int(600 * scale)
    hs = [rand_race(rng, variant, (i + rng.random()) / n) for i in range(n)]
    hs += [weave(rng, variant, computed(rng, t) if j % 2 else t) for t in ONCE for j in range(int(4 + scale))]
    hs += [calls(rng, variant, k) for k, m in (("comp", 300), ("error", 300), ("reg", 40), ("state", 40), ("ctx", 40)) for _ in range(int(2 * m * scale))]
    hs += [calls(rng, variant, "comp", "a") for _ in range(int(240 * scale))]
    hs += [calls(rng, variant, "run", t) for t in ONCE + 12 * [""] + [nest(rng, rng.choice([20, 40, 60]), j % 2 == 0).replace("(a,", "(2,") for j in range(2)] for _ in range(int(4 + 8 * scale))]
    for i in range(int(150 * scale)):
        h = Hist(variant)
        n = rng.choice([2, 2, 3])
        for c in range(1, n + 1):
            h.ctx(c)
            for v in ("a", "b", "c", "r", "reg%d0" % c):
                h.reg(c, v)
            if rng.random() < .5:
                h.set(h.var(c, "a"), rng.choice(VALS))

        def work(t):
            c = t + 1
            g = Gen(rng, vars="abc", regs=["reg%d0" % c], mem=False, depth=rng.choice([1, 2]), nums=NUMS)
            kept = [h.comp(c, style(rng, g.program(2))) for _ in range(2)]
            rand = h.comp(c, "r=rand(%d)" % rng.choice([2, 10, 1000]))

            def f():
                for _ in range(rng.choice([1, 2, 3])):
                    x = rng.random()
                    if x < .3:
                        h.run(rng.choice(kept))
                    elif x < .55:
                        h.run(rand, 0, [h.var(c, "r")])
                    elif x < .7:
                        h.do(c, style(rng, g.program(2)))
                    elif x < .78:
                        h.comp(c, " ".join(mutate(rng, tokens(text(g.program(2), "min", rng)))))
                        h.err(c)
                    elif x < .86:
                        h.do(c, "megabuf(%d)=a;memset(%d,2,3);b=megabuf(%d)" % (t, 5 + t, 6 + t))
                    elif x < .9:
                        h.reset(c)
                    elif x < .94:
                        h.free(c)
                    elif x < .97:
                        h.do(c, "gmem[%d]=a+1;b=gmem[%d]" % (t, t))
                    elif 20 + t not in h.ctxs:
                        h.ctx(20 + t)
            return f
        if i % 5 == 1:
            h.threads([work(t) for t in range(n)], points(rng, n, 40), points=True)
        else:
            h.threads([work(t) for t in range(n)], schedule(rng, n), compilations=i % 4 == 0)
        for c in range(1, n + 1):
            h.scan("m", c, 0, 12)
            h.do(c, "a=a+1;b=a*2")
        hs.append(h.end(rng))
    return hs


PROFILES = {n: f for n, f in globals().items() if len(n) == 3 and n[0] in "LNMVAFC" and n[1:].isdigit()}
