"""Random programs. Only text is produced: what a program means is decided by
the specification, which reads the same text. Programs terminate: loops are
bounded and calls go to earlier functions or recurse on a decreasing depth."""
import random

KEYWORDS = ["and", "const", "else", "end", "for", "function", "if", "import", "none", "not", "or",
            "return", "to", "var", "while"]
HOSTNAMES = ["abs", "min", "max", "bitand", "sin", "cos", "tan", "len", "chr", "round", "ceil",
             "floor", "sqrt", "new_thread", "wait", "new_array", "out", "emit", "id", "mk", "fail",
             "halt", "vars", "get", "junk", "nores", "nest"]
TRICKY = ["order", "notx", "iff", "endx", "to1", "nonex", "fortune", "andy", "variable", "constx",
          "elsewhere", "returned", "whiles", "functions", "imports", "_", "__x", "x_1", "X", "xX",
          "lenx", "outs", "aVeryLongIdentifierNameThatGoesOnAndOn_0123456789", "e1", "_9", "l", "O0",
          "length", "init", "Main", "nota", "or1", "ends", "ifs", "nonesuch", "functionx"]
INTS = [0, 1, 2, 3, 4, 5, 7, 8, 10, 13, 16, 100, 127, 128, 129, 255, 256, 257, 1000, 32767, 32768, 65535,
        65536, 16777215, 16777216, 16777217, 1000000, 2147483646, 2147483647]
FLTS = ["0.0", "0.5", "1.0", "1.5", "2.0", "2.25", "3.75", "10.0", "100.125", "0.1", "0.3", "3.14159",
        "1234.5", "16777216.0", "99999.99", "0.001", "1.", "7."]
STRS = ["", "a", "b", "ab", "hello", "Hello, World", "0", "1", "  ", "#no comment", "x=1", "end", "none",
        "A longer piece of text that does not fit into a small buffer, surely"]
WORDCH = "abcdefghijklmnopqrstuvwxyz"


class Var:
    __slots__ = ("name", "t", "fixed")

    def __init__(self, name, t, fixed=False):
        self.name, self.t, self.fixed = name, t, fixed


class Fn:
    __slots__ = ("name", "args", "ret", "cost", "rec")

    def __init__(self, name, args, ret, cost, rec):
        self.name, self.args, self.ret, self.cost, self.rec = name, args, ret, cost, rec


DEFAULT = dict(
    funcs=(0, 4), globs=(0, 4), consts=(0, 3), stmts=(2, 7), depth=3, nest=3, budget=1500,
    odd=0.03,          # chance of an operand of an arbitrary type
    inputs=0,          # get(k) of inputs available: list of type letters
    vars=0.0,          # chance of vars() statements
    ret=0.06, call=0.35, arr=1.0, flt=1.0, strs=1.0, const=1.0, fun=0.6, threads=0.0,
    tricky=0.3, layout=0.0, parens=0.5, junk=0.0, wide=0.04, setg=1.0, dead=0.05,
    loops=1.0, ifs=1.0, onlyints=False, constcond=0.05, member=0.0, blank=0.0, recurse=0.4,
    halts=0.0, fails=0.0, empty=0.05, emits=0.7,
    tick=0.12,         # loops whose condition has effects
    lits=0.4)          # share of literals among the leaves


class Gen:
    def __init__(self, rng, **kw):
        self.r = rng
        self.p = dict(DEFAULT)
        self.p.update(kw)
        self.lines = []
        self.used = set(k for k in KEYWORDS) | set(HOSTNAMES) | {"main"}
        self.globals, self.consts, self.fns = [], [], []
        self.scopes = [[]]
        self.cost = 0
        self.mult = 1
        self.fn = None
        self.loopdepth = 0
        self.indent = 0
        self.ticks = False

    # ---- helpers
    def chance(self, p):
        return self.r.random() < p

    def pick(self, *opts):
        """weighted choice: (weight, value) pairs"""
        tot = sum(w for w, _ in opts)
        x = self.r.random() * tot
        for w, v in opts:
            x -= w
            if x < 0:
                return v
        return opts[-1][1]

    def name(self, pre, reuse=()):
        if reuse and self.chance(0.3):
            n = self.r.choice(list(reuse))
            if n.lower() not in self.used and n not in self.used:
                return n
        for _ in range(50):
            if self.chance(self.p["tricky"]):
                n = self.r.choice(TRICKY)
            else:
                n = pre + str(self.r.randrange(40)) if self.chance(0.8) else \
                    "".join(self.r.choice(WORDCH) for _ in range(self.r.randint(1, 10)))
            if n not in self.used and n.lower() not in KEYWORDS:
                return n
        n = pre + "_" + str(len(self.used)) + "_" + str(self.r.randrange(10**6))
        return n

    def emit(self, text):
        p = self.p
        if p["layout"] and self.chance(p["layout"]):
            text = self.noise(text)
        if p["blank"] and self.chance(p["blank"]):
            self.lines.append(self.r.choice(["", "# a comment", "   ", "\t# end"]))
        self.lines.append("  " * self.indent + text)

    def noise(self, text):
        """change the layout without changing the tokens"""
        out, instr = [], False
        i = 0
        while i < len(text):
            c = text[i]
            if c == "#":
                out.append(text[i:])
                break
            if c == '"':
                j = text.index('"', i + 1)
                out.append(text[i:j + 1])
                i = j + 1
                continue
            if c == " " or c in "()[],":
                pad = self.r.choice(["", "", " ", "  ", "\t"])
                if c == " ":
                    out.append(" " + pad)
                else:
                    out.append(pad + c + self.r.choice(["", "", " ", "\t"]))
                i += 1
                continue
            if c.isalpha() or c == "_":
                j = i
                while j < len(text) and (text[j].isalnum() or text[j] == "_"):
                    j += 1
                w = text[i:j]
                if w in KEYWORDS and self.chance(0.3):
                    w = self.r.choice([w.upper(), w.capitalize()])
                out.append(w)
                i = j
                continue
            out.append(c)
            i += 1
        s = "".join(out)
        if self.chance(0.3):
            s += self.r.choice([" ", "\t", "\r", " # note", "#x", " # \"quote", "  # end"])
        return s

    # ---- variables
    def visible(self, t=None):
        vs = [v for s in self.scopes for v in s] + self.globals
        if t is None:
            return vs
        return [v for v in vs if v.t == t]

    # ---- literals
    def int_lit(self):
        r = self.r
        x = r.random()
        if x < 0.6:
            return str(r.randint(0, 9))
        if x < 0.85:
            return str(r.choice(INTS))
        if x < 0.95:
            return "-" + str(r.choice(INTS))
        return str(r.randint(0, 2**31 - 1))

    def flt_lit(self):
        return ("-" if self.chance(0.15) else "") + self.r.choice(FLTS)

    def str_lit(self):
        if self.chance(self.p["wide"]):
            return '"' + "".join(self.r.choice(WORDCH + " ") for _ in range(self.r.choice([120, 255, 256, 300]))) + '"'
        return '"' + self.r.choice(STRS) + '"'

    def par(self, s):
        return "(" + s + ")" if self.chance(self.p["parens"]) else s

    # ---- expressions by type: i f s a (array) u (anything) F (function)
    def expr(self, t, d):
        self.cost += self.mult
        p = self.p
        if self.chance(p["odd"]):
            t = self.r.choice("ifsau")
        if p["onlyints"]:
            t = "i"
        if t == "i":
            return self.int_expr(d)
        if t == "f":
            return self.flt_expr(d)
        if t == "s":
            return self.str_expr(d)
        if t == "a":
            return self.arr_expr(d)
        if t == "F":
            return self.fun_expr()
        k = self.pick((4, "i"), (2 * p["flt"], "f"), (2 * p["strs"], "s"), (1.5 * p["arr"], "a"),
                      (0.5, "n"), (0.3 * p["fun"], "F"), (1.5, "v"))
        if k == "n":
            return "none"
        if k == "v":
            vs = self.visible()
            if vs:
                return self.r.choice(vs).name
            k = "i"
        return self.expr(k, d)

    def fun_expr(self):
        vs = self.visible("F")
        if vs and self.chance(0.5):
            return self.r.choice(vs).name
        fs = [f.name for f in self.fns if f.cost * self.mult < self.p["budget"]]
        return self.r.choice(fs + ["abs", "len", "id", "max"])

    def var_of(self, t):
        vs = self.visible(t)
        return self.r.choice(vs).name if vs else None

    def call_of(self, t, d):
        room = self.p["budget"] - self.cost
        fs = [f for f in self.fns if (f.ret == t or t is None) and f.cost * self.mult < room]
        if not fs or d <= 0:
            return None
        f = self.r.choice(fs)
        self.cost += f.cost * self.mult
        args = []
        for i, a in enumerate(f.args):
            if f.rec and i == 0:
                args.append(str(self.r.randint(0, 3)))
            else:
                args.append(self.expr(a, d - 1))
        return f.name + "(" + ", ".join(args) + ")"

    def int_expr(self, d):
        p = self.p
        if d <= 0 or self.chance(0.2):
            v = self.var_of("i")
            if v and self.chance(1 - self.p["lits"]):
                return v
            cs = [c for c in self.consts if c.t == "i"]
            if cs and self.chance(0.3):
                return self.r.choice(cs).name
            return self.int_lit()
        k = self.pick((5, "bin"), (2, "cmp"), (1, "logic"), (1, "un"), (0.6, "not"), (1.2, "call"),
                      (0.7 * p["strs"], "len"), (0.7 * p["arr"], "idx"), (0.3, "bi"),
                      (0.4 * p["strs"], "sidx"), (0.5, "eq"), (0.5 if p["inputs"] else 0, "get"),
                      (0.25 * p["fun"], "icall"), (0.3 * p["arr"], "lenm"))
        E = self.expr
        if k == "bin":
            o = self.r.choice(["+", "-", "*", "+", "-", "/", "%"])
            a = self.par(E("i", d - 1))
            if o in "/%" and not self.chance(0.15):
                b = self.r.choice(["2", "3", "7", "-2", "10", "(-3)", "1"])
                if b[0] == "-" and self.chance(0.5):
                    b = "(" + b + ")"
            else:
                b = self.par(E("i", d - 1))
            return "%s %s %s" % (a, o, b)
        if k == "cmp":
            t = self.r.choice("iiif") if p["flt"] else "i"
            return self.par("%s %s %s" % (self.par(E(t, d - 1)), self.r.choice(["<", ">", "<=", ">=", "=="]),
                                          self.par(E(self.r.choice("if") if p["flt"] else "i", d - 1))))
        if k == "logic":
            return self.par("%s %s %s" % (self.par(E("u" if self.chance(0.3) else "i", d - 1)),
                                          self.r.choice(["and", "or"]),
                                          self.par(E("u" if self.chance(0.3) else "i", d - 1))))
        if k == "eq":
            t = self.r.choice("isFnif")
            if t == "n":
                a, b = E("u", d - 1), "none"
                if self.chance(0.5):
                    a, b = b, a
            else:
                a, b = E(t, d - 1), E(t, d - 1)
            return "((%s) == (%s))" % (a, b)
        if k == "un":
            return "-" + (E("i", d - 1) if self.chance(0.5) else "(" + E("i", d - 1) + ")")
        if k == "not":
            return "not " + self.par(E("u" if self.chance(0.3) else "i", d - 1))
        if k == "call":
            c = self.call_of("i", d)
            return c or self.int_expr(d - 1)
        if k == "icall":
            v = self.var_of("F")
            return "%s(%s)" % (v, E("i", d - 1)) if v else self.int_expr(d - 1)
        if k == "len":
            return "len(%s)" % E(self.r.choice("sa") if p["arr"] else "s", d - 1)
        if k == "lenm":
            v = self.var_of("a")
            return v + ".length" if v else self.int_expr(d - 1)
        if k == "idx":
            v = self.var_of("a")
            if not v:
                return self.int_expr(d - 1)
            i = str(self.r.randint(0, 2)) if self.chance(0.9) else E("i", d - 1)
            return "%s[%s]" % (v, i)
        if k == "sidx":
            v = self.var_of("s")
            if not v:
                return self.int_expr(d - 1)
            return '(%s + "pad")[%s]' % (v, self.r.randint(0, 2))
        if k == "bi":
            return self.r.choice(["abs(%s)" % E("i", d - 1),
                                  "bitand(%s, %s)" % (E("i", d - 1), E("i", d - 1)),
                                  "id(%s)" % E("i", d - 1), "mk(1)"])
        if k == "get":
            ks = [i for i, t in enumerate(p["inputs"]) if t == "i"]
            return "get(%d)" % self.r.choice(ks) if ks else self.int_lit()

    def flt_expr(self, d):
        E = self.expr
        if d <= 0 or self.chance(0.3):
            v = self.var_of("f")
            if v and self.chance(1 - self.p["lits"]):
                return v
            cs = [c for c in self.consts if c.t == "f"]
            if cs and self.chance(0.3):
                return self.r.choice(cs).name
            return self.flt_lit()
        k = self.pick((5, "bin"), (1, "un"), (1, "call"), (1.5, "bi"))
        if k == "bin":
            a, b = ("f", self.r.choice("if")) if self.chance(0.5) else (self.r.choice("if"), "f")
            return "(%s %s %s)" % (self.par(E(a, d - 1)), self.r.choice("+-*/"), self.par(E(b, d - 1)))
        if k == "un":
            return "-(" + E("f", d - 1) + ")"
        if k == "call":
            return self.call_of("f", d) or self.flt_expr(d - 1)
        f = self.r.choice(["floor", "ceil", "round", "sqrt", "abs", "min", "max"])
        if f in ("min", "max"):
            return "%s(%s, %s)" % (f, E(self.r.choice("if"), d - 1), E(self.r.choice("if"), d - 1))
        return "%s(%s)" % (f, E("f", d - 1))

    def str_expr(self, d):
        E = self.expr
        if d <= 0 or self.chance(0.3):
            v = self.var_of("s")
            if v and self.chance(1 - self.p["lits"]):
                return v
            cs = [c for c in self.consts if c.t == "s"]
            if cs and self.chance(0.3):
                return self.r.choice(cs).name
            return self.str_lit()
        k = self.pick((5, "cat"), (0.5, "chr"), (1, "call"), (0.3, "mk"))
        if k == "cat":
            t = self.r.choice("sssifn")
            o = "none" if t == "n" else self.par(E(t, d - 1))
            a, b = self.par(E("s", d - 1)), o
            if self.chance(0.4):
                a, b = b, a
            return "(%s + %s)" % (a, b)
        if k == "chr":
            return "chr(%s)" % self.r.randint(1, 255)
        if k == "mk":
            return "mk(3)"
        return self.call_of("s", d) or self.str_expr(d - 1)

    def arr_expr(self, d):
        E = self.expr
        v = self.var_of("a")
        if v and self.chance(0.4):
            return v
        k = self.pick((5, "lit"), (1.5, "new"), (1, "call"), (0.3, "mk"))
        if k == "call":
            c = self.call_of("a", d)
            if c:
                return c
        if k == "new":
            return "new_array(%d)" % (self.r.randint(3, 6) if not self.chance(self.p["wide"]) else 300)
        if k == "mk":
            return "mk(4)"
        n = self.r.randint(3, 5) if not self.chance(self.p["wide"]) else self.r.choice([20, 130, 260])
        if n > 10:
            self.cost += n * self.mult
            return "[" + ", ".join(str(i) for i in range(n)) + "]"
        return "[" + ", ".join(E("i" if self.chance(0.7) else "u", d - 2) for _ in range(n)) + "]"

    def cond(self, d):
        if self.chance(self.p["constcond"]):
            return self.r.choice(["0", "1", "none", "1 == 1", "2 < 1", '""', '"x"', "0.0", "1.5", "not 1",
                                  "3 - 3", "1 and 0", "-1"])
        return self.expr("i" if self.chance(0.85) else "u", d)

    # ---- statements
    def stmt(self, nest):
        p = self.p
        room = self.cost < p["budget"]
        k = self.pick((3, "var"), (2.5, "set"), (1, "comp"), (3, "out"), (p["emits"], "emit"),
                      (1.6 * p["ifs"] if nest > 0 and room else 0, "if"),
                      (0.9 * p["loops"] if nest > 0 and room and self.mult < 60 else 0, "for"),
                      (0.6 * p["loops"] if nest > 0 and room and self.mult < 60 else 0, "while"),
                      (1.2 * p["arr"], "seta"), (p["call"], "call"), (p["ret"], "ret"),
                      (p["vars"], "vars"), (p["junk"], "junk"), (0.5 * p["arr"], "outa"),
                      (p["threads"], "thread"), (p["threads"], "wait"), (p["member"], "member"),
                      (p["halts"], "halt"), (p["fails"], "fail"))
        d = self.r.randint(0, p["depth"])
        if k == "var":
            return self.decl(d)
        if k in ("set", "comp"):
            vs = [v for v in self.visible() if not v.fixed]
            if not vs:
                return self.decl(d)
            v = self.r.choice(vs)
            if k == "comp" and v.t in "ifs":
                if v.t == "s":
                    if self.mult > 1 or v in self.globals:
                        return self.emit("out(%s)" % v.name)
                    return self.emit("%s += %s" % (v.name, self.expr("s", d)))
                if v.t == "i":
                    o = self.r.choice(["+=", "-=", "*="])
                    return self.emit("%s %s %s" % (v.name, o, self.expr("i", d)))
                return self.emit("%s %s %s" % (v.name, self.r.choice(["+=", "-=", "*=", "/="]),
                                               self.expr(self.r.choice("if"), d)))
            e = self.expr(v.t, d)
            if v.t == "s" and (self.mult > 1 or v in self.globals):
                e = self.str_lit()
            return self.emit("%s = %s" % (v.name, e))
        if k == "out":
            return self.emit("out(%s)" % self.expr("u", d))
        if k == "outa":
            v = self.var_of("a")
            return self.emit("out(%s)" % (v or "0"))
        if k == "emit":
            return self.emit("emit(%s)" % ", ".join(self.expr("u", d - 1) for _ in range(self.r.randint(0, 4))))
        if k == "vars":
            return self.emit("vars()")
        if k == "halt":
            return self.emit("halt()")
        if k == "fail":
            v = self.var_of("i")
            return self.emit("fail(%s)" % self.r.choice(["1", "2", "5", "9", "20", v or "3", v or "0"]))
        if k == "junk":
            return self.emit("junk(%d)" % self.r.choice([1, 100, 999]))
        if k == "member":
            v = self.var_of(self.r.choice("ifsa"))
            if v:
                m = self.r.choice(["x", "y", "length", "foo", "z"])
                if self.chance(0.5):
                    return self.emit("%s.%s = %s" % (v, m, self.expr("u", d)))
                return self.emit("out(%s.%s)" % (v, m))
            return self.emit("out(1)")
        if k == "call":
            c = self.call_of(None, d) if self.fns else None
            return self.emit(c or "out(%s)" % self.expr("u", d))
        if k == "ret":
            self.emit("return" + (" " + self.expr(self.fn_ret, d) if self.chance(0.85) else ""))
            if self.chance(p["dead"]):
                return
            return
        if k == "thread":
            fs = [f for f in self.fns if not f.rec]
            if fs and self.mult <= 3:
                f = self.r.choice(fs)
                return self.emit("new_thread(%s)" % ", ".join([f.name] + [self.expr(a, 1) for a in f.args]))
            return self.emit("out(2)")
        if k == "wait":
            return self.emit("wait(%s)" % self.r.choice(["0", "1", "2", "3", "-1", "1.5"]))
        if k == "seta":
            v = self.var_of("a")
            if not v:
                return self.decl(d)
            i = str(self.r.randint(0, 2)) if self.chance(0.92) else self.expr("i", 1)
            return self.emit("%s[%s] = %s" % (v, i, self.expr("i" if self.chance(0.6) else "u", d)))
        if k == "if":
            self.emit("if (%s)" % self.cond(d))
            self.block(nest - 1)
            if self.chance(0.45):
                self.emit("else")
                self.block(nest - 1)
            return self.emit("end")
        if k == "for":
            v = self.name("k")
            iv = [x for x in self.visible("i") if x.fixed is None]
            n = self.r.randint(1, 4) if not self.chance(p["wide"] * 0.5) or self.mult > 1 else 300
            a = self.r.choice([0, 0, 0, 1, -2, 5])
            self.emit("var %s%s" % (v, self.r.choice(["", "", " = 0"])))
            var = Var(v, "i", True)
            self.scopes[-1].append(var)
            self.used.add(v)
            self.emit("for (%s = %s to %s)" % (v, a, a + n))
            m = self.mult
            self.mult *= n
            self.loopdepth += 1
            if n > 10:
                self.indent += 1
                self.emit("junk(1)")
                self.indent -= 1
            else:
                self.block(nest - 1)
            self.loopdepth -= 1
            self.mult = m
            return self.emit("end")
        if k == "while" and self.ticks and self.chance(0.35):
            v = self.name("w")
            n = self.r.randint(0, 4)
            self.emit("var %s = [0]" % v)
            self.used.add(v)
            self.emit("while (%s)" % self.r.choice(["%s(%s, %d)", "%s(%s, %d) == 1", "not (%s(%s, %d) == 0)", "1 and %s(%s, %d)"])
                      % ("tick_", v, n))
            m = self.mult
            self.mult *= max(n, 1)
            self.cost += 8 * self.mult
            if not self.chance(0.5):
                self.loopdepth += 1
                self.block(nest - 1)
                self.loopdepth -= 1
            self.mult = m
            self.emit("end")
            return self.emit("out(%s)" % v)
        if k == "while":
            v = self.name("w")
            n = self.r.randint(1, 4)
            self.emit("var %s = 0" % v)
            self.scopes[-1].append(Var(v, "i", True))
            self.used.add(v)
            c = "%s < %d" % (v, n)
            if self.chance(0.3):
                c = self.r.choice(["(%s) and (%s)", "(%s) and %s"]) % (c, "(" + self.cond(1) + ")")
            self.emit("while (%s)" % c)
            m = self.mult
            self.mult *= n
            self.loopdepth += 1
            self.block(nest - 1, tail="%s = %s + 1" % (v, v) if self.chance(0.6) else "%s += 1" % v)
            self.loopdepth -= 1
            self.mult = m
            return self.emit("end")

    def decl(self, d):
        p = self.p
        t = self.pick((4, "i"), (1.5 * p["flt"], "f"), (1.5 * p["strs"], "s"), (1.5 * p["arr"], "a"),
                      (0.4 * p["fun"], "F"), (0.4, "u"))
        if p["onlyints"]:
            t = "i"
        n = self.name("v", self.recent)
        if self.chance(0.1):
            self.emit("var " + n)
            t = "u"
        else:
            self.emit("var %s = %s" % (n, self.expr(t, d)))
        self.scopes[-1].append(Var(n, t))
        self.used.add(n)
        self.recent.append(n)

    def block(self, nest, tail=None):
        self.indent += 1
        self.scopes.append([])
        for _ in range(0 if self.chance(self.p["empty"]) else self.r.randint(1, 3)):
            self.stmt(nest)
        if tail:
            self.emit(tail)
        for v in self.scopes.pop():
            self.used.discard(v.name)
        self.indent -= 1

    def function(self, name, args, body_min, body_max):
        p = self.p
        start = len(self.lines)
        rec = name != "main" and self.chance(p["recurse"]) and len(args) > 0
        self.scopes = [[]]
        for i, (n, t) in enumerate(args):
            self.scopes[0].append(Var(n, "i" if rec and i == 0 else t, rec and i == 0))
            self.used.add(n)
        self.fn_ret = self.r.choice("iiifsa" if not p["onlyints"] else "i")
        self.recent = []
        self.cost, self.mult, self.indent = 0, 1, 0
        self.emit("function %s(%s)" % (name, ", ".join(n for n, _ in args)))
        self.indent = 1
        if self.chance(p["wide"]):
            n = self.r.choice([30, 100, 130])
            for i in range(n):
                self.emit("var wide%d = %d" % (i, i))
                self.scopes[0].append(Var("wide%d" % i, "i"))
                self.used.add("wide%d" % i)
            self.cost += n
        for _ in range(self.r.randint(body_min, body_max)):
            self.stmt(p["nest"])
        cost = self.cost + 5
        if rec:
            self.emit("if (%s > 0)" % args[0][0])
            self.indent += 1
            rest = ["%s - 1" % args[0][0]] + [self.expr(t, 1) for _, t in args[1:]]
            c = "%s(%s)" % (name, ", ".join(rest))
            self.emit(self.r.choice(["out(%s)", "emit(1, %s, 2)" if p["emits"] else "out(%s)", "var rr = %s"]) % c)
            self.indent -= 1
            self.emit("end")
            cost *= 4
        if self.chance(0.8):
            self.emit("return" + (" " + self.expr(self.fn_ret, 2) if self.chance(0.92) else ""))
        else:
            self.fn_ret = "i"
        self.indent = 0
        self.emit("end")
        for s in self.scopes:
            for v in s:
                self.used.discard(v.name)
        self.scopes = [[]]
        return Fn(name, ["i" if rec and i == 0 else t for i, (_, t) in enumerate(args)],
                  self.fn_ret, cost, rec)

    def glob(self):
        p = self.p
        n = self.name("g")
        self.used.add(n)
        t = self.pick((4, "i"), (p["flt"], "f"), (p["strs"], "s"), (1.5 * p["arr"], "a"))
        if p["onlyints"]:
            t = "i"
        if self.chance(0.2):
            self.emit("var " + n)
            t = "u"
        else:
            self.emit("var %s = %s" % (n, self.expr(t, self.r.randint(0, 2))))
        self.globals.append(Var(n, t))

    def const(self):
        n = self.name("c")
        self.used.add(n)
        t = self.pick((4, "i"), (1 * self.p["flt"], "f"), (1 * self.p["strs"], "s"))
        if t == "f":
            e = self.r.choice(FLTS)
        elif t == "s":
            e = self.str_lit()
        else:
            e = self.const_expr(self.r.randint(0, 2))
        self.emit("const %s = %s" % (n, e))
        self.consts.append(Var(n, t, True))

    def const_expr(self, d):
        if d <= 0:
            cs = [c.name for c in self.consts if c.t == "i"]
            if cs and self.chance(0.4):
                return self.r.choice(cs)
            return str(self.r.choice(INTS[:20]))
        if self.chance(0.15):
            return "-(" + self.const_expr(d - 1) + ")"
        if self.chance(0.1):
            return "not (" + self.const_expr(d - 1) + ")"
        o = self.r.choice(["+", "-", "*", "<", "==", ">=", "and", "or", "/", "%", "<=", ">"])
        b = self.r.choice(["2", "3", "-3", "7"]) if o in "/%" else self.par(self.const_expr(d - 1))
        if b.startswith("-"):
            b = "(" + b + ")"
        return "%s %s %s" % (self.par(self.const_expr(d - 1)), o, b)

    def program(self):
        p = self.p
        r = self.r
        nf, ng, nc = r.randint(*p["funcs"]), r.randint(*p["globs"]), r.randint(*p["consts"])
        self.recent = []
        for _ in range(nc):
            self.const()
        for i in range(ng):
            self.glob()
        self.ticks = not p["onlyints"] and self.chance(p["tick"])
        if self.ticks:
            self.used.add("tick_")
            self.emit("function tick_(c, n)")
            for l in ("  c[0] = c[0] + 1", "  return c[0] <= n", "end"):
                self.emit(l)
        for i in range(nf):
            if ng and self.chance(0.15):
                self.glob()
            na = r.choice([0, 1, 1, 2, 2, 3, 4]) if not self.chance(p["wide"]) else r.choice([8, 12])
            args, names = [], set()
            for _ in range(na):
                n = self.name("a")
                while n in names:
                    n = self.name("a") + "_"
                names.add(n)
                args.append((n, r.choice("iiifsa") if not p["onlyints"] else "i"))
            name = self.name("f")
            while name in names:
                name = self.name("f") + "_f"
            self.used.add(name)
            f = self.function(name, args, *p["stmts"])
            self.fns.append(f)
        self.main = self.function("main", [], p["stmts"][0] + 1, p["stmts"][1] + 2)
        return "\n".join(self.lines) + "\n"


def program(rng, **kw):
    g = Gen(rng, **kw)
    return g.program(), g
