"""Random programs of the expression language.  The generator only produces text; what it means is up to the specification."""
import random

PREC = {"=": 2, "+=": 3, "-=": 3, "*=": 4, "/=": 4, "%=": 4, "^=": 5, "|=": 5, "&=": 5, "?": 6, "||": 7, "&&": 8, "|": 9,
        "&": 10, "==": 11, "!=": 11, ">": 12, ">=": 12, "<": 13, "<=": 13, "-": 14, "+": 14, "*": 15, "/": 15, "%": 16,
        "!": 17, "^": 18, "neg": 19}
ARITH = ["+", "-", "*", "/"]
CMP = ["==", "!=", "<", ">", "<=", ">="]
BOOL = ["&&", "||"]
INT = ["%", "&", "|"]
ASSIGN = ["="] * 6 + ["+=", "-=", "*=", "/=", "%=", "|=", "&=", "^="]
ALLASSIGN = ["=", "+=", "-=", "*=", "/=", "%=", "|=", "&=", "^="]
ALLBIN = ARITH + CMP + BOOL + INT + ["^"]
NUMS = ["0", "1", "2", "3", "4", "5", "7", "10", "0.5", "1.5", "2.25", "-1", "6", "12", "100", "0.25", "13", "1", "0", "2"]
FN1 = ["abs", "sqr", "sqrt", "floor", "ceil", "int", "sign", "_not", "bnot", "_neg"]
FN2 = ["min", "max", "below", "above", "equal", "band", "bor", "_add", "_sub", "_mul", "_div", "_below", "_above",
       "_equal", "_noteq", "_beleq", "_aboeq"]
OPFUNC = {"_add": "+", "_sub": "-", "_mul": "*", "_div": "/", "_mod": "%", "_equal": "==", "_noteq": "!=", "_below": "<",
          "_above": ">", "_beleq": "<=", "_aboeq": ">=", "_and": "&&", "_or": "||", "_set": "=", "_addop": "+=",
          "_subop": "-=", "_mulop": "*=", "_divop": "/=", "_modop": "%=", "_orop": "|=", "_andop": "&=", "_powop": "^="}
FUNCOP = {v: k for k, v in OPFUNC.items()}


class Gen:
    def __init__(self, rng, vars=("a", "b", "c", "d"), depth=3, mem=True, regs=(), cells=(0, 1, 2, 3, 65534, 65535, 65536),
                 loops=True, nums=NUMS, intops=True, effects=0.35, calls=True, spell=0.15):
        self.r = rng
        self.vars = list(vars)
        self.depth = depth
        self.mem = mem
        self.regs = list(regs)
        self.cells = list(cells)
        self.loops = loops
        self.nums = nums
        self.intops = intops
        self.effects = effects
        self.calls = calls
        self.spell = spell        # probability of the functional spelling of an operator
        self.inloop = 0

    # trees: ("n", text) ("v", name) ("f", name, args) ("o", op, l, r) ("u", op, x) ("t", c, a, b) ("l", items)
    #        ("i", base, off or None) ("g", off or None)
    def num(self):
        return ("n", self.r.choice(self.nums).lstrip("-"))

    def var(self):
        return ("v", self.r.choice(self.vars + self.regs))

    def index(self):
        return ("n", str(self.r.choice(self.cells)))

    def memref(self, d=0):
        r = self.r.random()
        ix = self.index() if d <= 0 or self.r.random() < .7 else ("f", "abs", [self.expr(d - 1, False)])
        if r < .35:
            return ("f", self.r.choice(["megabuf", "_mem"]), [ix])
        if r < .55:
            return ("f", self.r.choice(["gmegabuf", "_gmem"]), [ix])
        if r < .7:
            return ("g", ix if self.r.random() < .9 else None)
        if r < .8:
            return ("i", ix, None)
        return ("i", ix, ("n", self.r.choice(["0", "1", "2"])))

    def lvalue(self, d=1):
        if self.r.random() < .04:
            return self.no_lvalue(0)
        r = self.r.random()
        if not self.mem or r < .7:
            return self.var()
        if r < .93 or d <= 0:
            return self.memref(d - 1)
        k = self.r.randrange(5)
        if k == 0:
            return ("t", self.expr(0, False), self.var(), self.lvalue(d - 1))
        if k == 1:
            return ("f", self.r.choice(["if", "_if"]), [self.expr(1, False), self.lvalue(d - 1), self.var()])
        if k == 2:
            return ("o", "=", self.lvalue(d - 1), self.expr(0, False))
        if k == 3:
            return ("f", "exec2", [self.effect(0), self.lvalue(d - 1)])
        return ("l", [self.effect(0), self.lvalue(d - 1)])

    def no_lvalue(self, d=0):
        """A target which is no place, or only sometimes: what is assigned to it is only its value."""
        c = lambda: ("n", self.r.choice(["0", "1", "2", "3", "2.5", "7"]))
        k = self.r.randrange(6)
        if k == 0:
            return c()
        if k == 1:
            return ("t", self.expr(0, False), c(), self.r.choice([c, c, self.var])())
        if k == 2:
            return ("f", self.r.choice(["if", "_if"]), [self.expr(0, False), self.r.choice([c, c, self.var])(), c()])
        if k == 3:
            return ("f", "exec2", [self.effect(0), c()])
        if k == 4:
            return ("l", [self.effect(0), c()])
        return self.expr(d, False)

    def effect(self, d):
        """An expression with an effect."""
        r = self.r.random()
        if r < .8 or d <= 0:
            op = self.r.choice(ASSIGN)
            if op == "^=":
                return ("o", op, self.lvalue(d), ("n", self.r.choice("0111")))
            if op in ("%=", "|=", "&=") and not self.intops:
                op = "+="
            t = self.spelled(op, self.lvalue(d), self.expr(d - 1))
            return t
        if r < .84:
            return ("f", "assign", [self.lvalue(d), self.expr(d - 1)])
        if self.mem and r < .9:
            f = self.r.choice(["memset", "memcpy"])
            small = lambda: ("n", str(self.r.choice([0, 1, 2, 3, 4])))
            return ("f", f, [self.index(), self.index() if f == "memcpy" else self.expr(d - 1, False), small()])
        if self.loops and self.inloop < 2:
            self.inloop += 1
            body = self.list(d - 1, 2)
            self.inloop -= 1
            return ("f", "loop", [self.r.choice([("n", self.r.choice(["0", "1", "2", "3", "2.7"])), self.expr(0, False)]), body])
        return self.spelled(self.r.choice(["+=", "="]), self.var(), self.expr(d - 1))

    def spelled(self, op, l, r):
        if op in FUNCOP and self.r.random() < self.spell:
            return ("f", FUNCOP[op], [l, r])
        return ("o", op, l, r)

    def expr(self, d, eff=True):
        r = self.r.random()
        if d <= 0:
            if r < .4:
                return self.num()
            if r < .9 or not self.mem:
                return self.var()
            return self.memref()
        if eff and self.r.random() < self.effects:
            return self.effect(d)
        k = self.r.random()
        if k < .30:
            op = self.r.choice(ARITH)
        elif k < .42:
            op = self.r.choice(CMP)
        elif k < .50:
            op = self.r.choice(BOOL)
        elif k < .55 and self.intops:
            op = self.r.choice(INT)
        elif k < .57:
            return ("o", "^", self.expr(d - 1, eff), ("n", self.r.choice("01112")))
        else:
            op = None
        if op:
            l, x = self.expr(d - 1, eff), self.expr(d - 1, eff)
            if op in ARITH + CMP + INT:
                l = settle(l, x)
            return self.spelled(op, l, x)
        if k < .64:
            return ("u", self.r.choice(["-", "-", "!", "+"]), self.expr(d - 1, eff))
        if k < .70:
            return ("t", self.expr(d - 1, eff), self.expr(d - 1, eff), self.expr(d - 1, eff))
        if k < .76:
            return ("f", self.r.choice(["if", "_if"]), [self.arg(d, eff) for _ in range(3)])
        if k < .80:
            return ("l", [self.expr(d - 1, eff) for _ in range(self.r.choice([2, 2, 3]))])
        if k < .83:
            n = self.r.choice([2, 3])
            return ("f", "exec%d" % n, [self.arg(d, eff) for _ in range(n)])
        if self.mem and k < .86:
            return self.memref(d)
        if not self.calls:
            return self.expr(d - 1, eff)
        if k < .93:
            return ("f", self.r.choice(FN1), [self.arg(d, eff)])
        f = self.r.choice(FN2)
        l, x = self.arg(d, eff), self.arg(d, eff)
        return ("f", f, [settle(l, x), x])

    def arg(self, d, eff=True):
        if self.r.random() < .12:
            return ("l", [self.expr(d - 1, eff), self.expr(d - 1, eff)])
        return self.expr(d - 1, eff)

    def list(self, d, n):
        k = self.r.randint(1, n)
        items = [self.effect(d) if self.r.random() < .75 else self.expr(d) for _ in range(k)]
        return items[0] if k == 1 else ("l", items)

    def program(self, n=4, d=None):
        d = self.depth if d is None else d
        return ("l", [self.effect(d) if self.r.random() < .8 else self.expr(d) for _ in range(self.r.randint(1, n))])


def isref(t):
    if t[0] in ("v", "i", "g"):
        return True
    if t[0] == "f":
        if t[1] in ("megabuf", "_mem", "gmegabuf", "_gmem", "assign", "loop", "while", "memset", "memcpy") or t[1][1:] in (
                "set", "addop", "subop", "mulop", "divop", "modop", "orop", "andop", "powop"):
            return True
        if t[1] in ("if", "_if"):
            return isref(t[2][1]) or isref(t[2][2])
        if t[1] in ("exec2", "exec3"):
            return isref(t[2][-1])
    if t[0] == "o":
        return t[1] in ALLASSIGN
    if t[0] == "t":
        return isref(t[2]) or isref(t[3])
    if t[0] == "l":
        return isref(t[1][-1])
    return False


def haseffect(t):
    if t[0] in ("n", "v"):
        return False
    if t[0] == "f":
        if t[1] in ("loop", "while", "assign", "memset", "memcpy") or t[1][1:] in (
                "set", "addop", "subop", "mulop", "divop", "modop", "orop", "andop", "powop"):
            return True
        return any(haseffect(x) for x in t[2])
    if t[0] == "o":
        return t[1] in ALLASSIGN or haseffect(t[2]) or haseffect(t[3])
    if t[0] == "u":
        return haseffect(t[2])
    if t[0] == "l":
        return any(haseffect(x) for x in t[1])
    return any(x is not None and haseffect(x) for x in t[1:])


def settle(l, r):
    """Turn a reference on the left of something with effects into a value."""
    return ("o", "+", l, ("n", "0")) if isref(l) and haseffect(r) else l


def prec(t):
    if t[0] == "o":
        return PREC[t[1]]
    if t[0] == "t":
        return PREC["?"]
    if t[0] == "u":
        return PREC["!"] if t[1] == "!" else PREC["neg"]
    return 30


def text(t, mode="min", rng=None):
    """mode: "min" only required parentheses, "full" all of them, "mix" some more than required."""
    def sub(x, need):
        s = text(x, mode, rng)
        p = prec(x)
        if x[0] == "l":
            return "(" + s + ")"
        if p >= 30:
            return s
        if mode == "full" or need > p or (mode == "mix" and rng.random() < .3):
            return "(" + s + ")"
        return s
    k = t[0]
    if k in ("n", "v"):
        return t[1]
    if k == "f":
        return t[1] + "(" + ",".join(text(a, mode, rng) for a in t[2]) + ")"
    if k == "o":
        p = PREC[t[1]]
        if p <= 5:
            return sub(t[2], p + 1) + t[1] + sub(t[3], p)
        return sub(t[2], p) + t[1] + sub(t[3], p + 1)
    if k == "u":
        p = prec(t)
        return t[1] + sub(t[2], p)
    if k == "t":
        return sub(t[1], 6) + "?" + sub(t[2], 0) + ":" + sub(t[3], 7)
    if k == "l":
        return ";".join(sub(x, 0) for x in t[1])
    if k == "i":
        return sub(t[1], 20) + "[" + (sub(t[2], 0) if t[2] else "") + "]"
    if k == "g":
        return "gmem[" + (sub(t[1], 0) if t[1] else "") + "]"
    raise ValueError(k)


# ---------------------------------------------------------------------------------------------- text level mutations
def tokens(s):
    """Splits program text into tokens (good enough for generated programs)."""
    import re
    return re.findall(r"\$x[0-9a-fA-F]+|\$'.'|\$[A-Za-z]+|[0-9]*\.?[0-9]+(?:[eE][+-]?[0-9]+)?|[0-9]+\.|[A-Za-z_][A-Za-z0-9_]*|"
                      r"[-+*/%^|&=!<>]=|\|\||&&|[^\s]", s)


TRIVIA = [" ", "  ", "\t", "\n", "\r\n", "/**/", "/* c */", "// x\n", "/* a\n b */", "/***/", "/* // */", "// /* \n", "\n\n",
          "/* * / */", " /*;*/ ", "//\n", "/* x=5; */", "/**\n*/", "\v", "\f", "//\\\n", "//*/\n", "/*//*/", "/*\n//\n*/",
          "// x\r y\n", "//\r\n", "/*\r*/", "// x\v\f\ty\n"]


def comment(rng):
    """A comment with arbitrary bytes in it."""
    n = rng.choice([0, 1, 2, 4, 8, 30])
    s = "".join(rng.choice(["*", "/", "//", "/*", "* /", "\\", "\r", "\n", "\t", "\v", "\f", "\x01", "\x1b", "\x7f", "\xc3\xa4", "\xff", "'", '"', "$", "$'", "#", "@", "a", "b=7;", "a=9", ";", ")", "(", "?", " ",
                            chr(rng.randint(1, 255))]) for _ in range(n))
    if rng.random() < .5:
        return "//" + s.replace("\n", " ") + "\n"
    return "/*" + s.replace("*/", "* /").rstrip("*") + "*/"


def trivia(rng, toks, p=.5):
    out = []
    for i, t in enumerate(toks):
        if rng.random() < p:
            out.append("".join(rng.choice(TRIVIA) if rng.random() < .85 else comment(rng) for _ in range(rng.choice([1, 1, 2]))))
        elif i and (toks[i - 1][-1].isalnum() or toks[i - 1][-1] in "_.'") and (t[0].isalnum() or t[0] in "_."):
            out.append(" ")
        elif i and toks[i - 1][-1] + t[0] in ("//", "/*", "==", "<=", ">=", "!=", "||", "&&", "+=", "-=", "*=", "/=", "%=",
                                                "^=", "|=", "&="):
            out.append(" ")
        out.append(t)
    if rng.random() < p:
        out.append(rng.choice(TRIVIA))
    return "".join(out)


def recase(rng, s):
    return "".join(c.upper() if rng.random() < .5 else c.lower() for c in s)


VOCAB = ["a", "b", "x1", "1", "2.5", "0", "(", ")", "[", "]", ",", ";", "+", "-", "*", "/", "%", "^", "&", "|", "!", "=", "==",
         "!=", "<", ">", "<=", ">=", "&&", "||", "?", ":", "+=", "-=", "*=", "/=", "%=", "^=", "|=", "&=", "sin", "if", "min",
         "exec3", "gmem", "megabuf", "loop", "while", "rand", "$pi", "$xA", "memset", "atan2", "gmegabuf", "reg01"]


def mutate(rng, toks, n=1):
    t = list(toks)
    for _ in range(n):
        k = rng.randrange(5)
        i = rng.randrange(len(t) + 1) if t else 0
        if k == 0 and t:
            del t[min(i, len(t) - 1)]
        elif k == 1:
            t.insert(i, rng.choice(VOCAB))
        elif k == 2 and t:
            t[min(i, len(t) - 1)] = rng.choice(VOCAB)
        elif k == 3 and len(t) > 1:
            i = min(i, len(t) - 2)
            t[i], t[i + 1] = t[i + 1], t[i]
        elif k == 4 and t:
            t = t[:i]
    return t
