"""Small programs, all of them: statement trees, places of expressions, ways to pass arrays on, files whose lines coincide."""
import itertools
from . import gen
from .lib import Case, INIT, call, I, FL_FILES

# ------------------------------------------------------------- statement trees
ATOMS = ("out", "set", "var", "ret")
_blocks = {}


def blocks(n):
    """all blocks of n statements (nested ones count)"""
    if n not in _blocks:
        if n == 0:
            _blocks[n] = [()]
        else:
            _blocks[n] = [(s,) + b for k in range(1, n + 1) for s in statements(k) for b in blocks(n - k)]
    return _blocks[n]


_stats = {}


def statements(n):
    if n not in _stats:
        out = [(a,) for a in ATOMS] if n == 1 else []
        for k in ("if", "while", "for"):
            out += [(k, b) for b in blocks(n - 1)]
        for i in range(n):
            out += [("ifelse", b, c) for b in blocks(i) for c in blocks(n - 1 - i)]
        _stats[n] = out
    return _stats[n]


def random_block(r, n):
    out = []
    while n > 0:
        k = r.randint(1, n)
        n -= k
        if k == 1 and r.random() < 0.8:
            out.append((r.choice(ATOMS),))
        elif r.random() < 0.4:
            i = r.randint(0, k - 1)
            out.append(("ifelse", random_block(r, i), random_block(r, k - 1 - i)))
        else:
            out.append((r.choice(["if", "if", "while", "for"]), random_block(r, k - 1)))
    return tuple(out)


CONDS = ["a", "b", "not a", "a == b", "a and b", "a or b", "a - b", "g"]
CONST_TRUE = ["1", "-1", "2", "-2147483647", "1.5", "-0.5", '"s"', "not 0", "1 == 1", "KT", "-KT", "2 - 1", "0 - 1"]
CONST_FALSE = ["0", "none", '""', "0.0", "not 1", "1 == 2", "KF", "-KF", "KT - 1", "not -1"]
SHAPE_DEFS = ("const KT = 1\nconst KF = 0\nvar g = 0\nvar fuel = 0\nfunction go()\n  fuel -= 1\n  return fuel > 0\nend\n")


class Writer:
    def __init__(self, r, const):
        self.r, self.const, self.n, self.lines = r, const, 0, []

    def fresh(self):
        self.n += 1
        return self.n

    def cond(self):
        r = self.r
        if r.random() < self.const:
            return r.choice(CONST_TRUE + CONST_FALSE)
        return r.choice(CONDS)

    def block(self, b, ind, names):
        names = list(names)
        free = [n for n in names if n[0] in "av"]      # loops end: their counters and limits are not assigned
        r = self.r
        put = lambda s: self.lines.append("  " * ind + s)
        for s in b:
            k = self.fresh()
            if s[0] == "out":
                put("out(%s)" % r.choice([str(k), "%d + %s" % (k * 100, r.choice(names))]))
            elif s[0] == "set":
                put(r.choice(["g = g + %d" % k, "%s = %s + %d" % (r.choice(free), r.choice(names), k), "%s += %d" % (r.choice(free), k)]))
            elif s[0] == "var":
                put("var v%d%s" % (k, r.choice(["", " = %d" % k, " = " + r.choice(names)])))
                put("out(v%d)" % k)
                # nothing adds to a value that may be none
                put("v%d = %d" % (k, k))
                names.append("v%d" % k)
                free.append("v%d" % k)
            elif s[0] == "ret":
                put(r.choice(["return", "return %d" % k, "return %s" % r.choice(names), "return %d" % -k]))
            elif s[0] in ("if", "ifelse"):
                put("if (%s)" % self.cond())
                self.block(s[1], ind + 1, names)
                if s[0] == "ifelse":
                    put("else")
                    self.block(s[2], ind + 1, names)
                put("end")
            elif s[0] == "while":
                c = r.random()
                if c < self.const:
                    if r.random() < 0.6:
                        put("while (%s)" % r.choice(CONST_TRUE))
                        if r.random() < 0.5:
                            self.block(s[1], ind + 1, names)
                            put("  if (not go())\n" + "  " * ind + "    return %d\n" % (k * 1000) + "  " * ind + "  end")
                        else:
                            put("  if (not go())\n" + "  " * ind + "    return %d\n" % (k * 1000) + "  " * ind + "  end")
                            self.block(s[1], ind + 1, names)
                    else:
                        put("while (%s)" % r.choice(CONST_FALSE))
                        self.block(s[1], ind + 1, names)
                else:
                    put("while (%s)" % r.choice(["go()", "go() and " + r.choice(["a", "b"]), "(%s) and go()" % self.cond()]))
                    self.block(s[1], ind + 1, names)
                put("end")
            else:
                put("var i%d" % k)
                lo, hi = r.choice([("0", "2"), ("0", "0"), ("1", "3"), ("b", "2"), ("0", "b"), ("-1", "1"), ("2", "0"), ("0", "b + b")])
                put("for (i%d = %s to %s)" % (k, lo, hi))
                self.block(s[1], ind + 1, names + ["i%d" % k])
                put("end")


def shape_function(r, name, b, const):
    w = Writer(r, const)
    w.block(b, 1, ["a", "b"])
    return "function %s(a, b)\n  fuel = 4\n%send\n" % (name, "".join(l + "\n" for l in w.lines))


ARGS = [(0, 0), (1, 0), (0, 1), (1, 1)]


def shape_cases(r, bodies, what, const=0.25, per=24, opts=(0, 1), **kw):
    out = []
    for k in range(0, len(bodies), per):
        part = bodies[k:k + per]
        t = SHAPE_DEFS + "".join(shape_function(r, "t%d" % i, b, const) for i, b in enumerate(part)) + "function main()\nend\n"
        ops = [INIT] + [call("t%d" % i, I(a), I(b)) for i in range(len(part)) for a, b in ARGS]
        for o in (opts if len(opts) != 1 else (opts[0],)) if opts else (k // per % 2,):
            c = dict(opt=o, what=what, dump=1)
            c.update(kw)
            if c.get("flags", 0) & 4:
                ops = []
            out.append(Case(t, ops, **c))
    return out


def bodies_to(n):
    return [b for k in range(n + 1) for b in blocks(k)]


# ------------------------------------------------------------- places of expressions
EXPR_AT = ["@", "foo(@)", "two(1, @)", "two(@, 1)", "fa[0](@)", "fv(@)", "fa[@]", "[@]", "[1, @]", "(@)", "-@", "not @", "1 + @", "@ + 1",
           "@ and 1", "0 or @", "1 < @", "foo(foo(@))", "abs(@)", "emit(1, @)", "fa[0](1, @)", "ga[0][@]", "fa[@](1)", "1 * (2 + @)", "(1 - @) / 2", "fv(1)(@)"]
STAT_AT = ["gv = @", "gv += @", "ga[@] = 1", "ga[0] = @", "if (@)\n    out(1)\n  end", "while (@)\n    return 1\n  end", "for (gv = @ to 3)\n  end",
           "for (gv = 0 to @)\n  end", "return @", "var x = @", "out(@)", "foo(@)", "gv.x = @", "fv(@)", "if (0)\n    out(@)\n  else\n    gv = 1\n  end",
           "if (1)\n    out(1)\n  else\n    gv = @\n  end", "while (0)\n    var y = @\n  end", "if (gv)\n    while (gv)\n      return @\n    end\n  end", "fa[0](@)", "return 1\n  out(@)"]
FILE_AT = ["var q = @", "const q = @", "var q = [@]", "var q = foo(@)"]
BAD_EXPR = ["nosuch", "nosuch(1)", "nosuch[0]", "nosuch.x", "foo()", "foo(1, 2)", "abs()", "abs(1, 2)", "min(1)", "bar(1)", "two(1)", "two(1, 2, 3)", "main(1)", "emit()",
            "later", "inner", "foo(1)", "loc", "CN", "CN(1)", "CN[0]", "foo[0]", "foo.x", "later2(1)", "later2()", "out", "later3", "gv = 1", "1 2"]
PLACE_DEFS = ("const CN = 4\nvar gv = 1\nvar ga = [1, [2]]\nvar fv = foo\nvar fa = [foo]\nfunction foo(x)\n  return x\nend\nfunction bar()\nend\n"
              "function two(a, b)\n  return a\nend\n")
PLACE_TAIL = "function later2()\n  return 1\nend\nvar later3 = 5\n"


def place_texts(r, depth2):
    out = []

    def text(stat, e):
        return PLACE_DEFS + "function main()\n  var loc = 3\n  %s\n  out(loc)\n  if (loc)\n    var inner = 1\n  end\n  var later = 1\nend\n" % stat.replace("@", e) + PLACE_TAIL

    def ftext(stat, e):
        return PLACE_DEFS + stat.replace("@", e) + "\nfunction main()\n  var loc = 1\n  out(q)\nend\n" + PLACE_TAIL
    for d in BAD_EXPR:
        for c in EXPR_AT:
            e = c.replace("@", d)
            for s in STAT_AT:
                out.append(text(s, e))
            for s in FILE_AT:
                out.append(ftext(s, e))
    for _ in range(depth2):
        e = r.choice(BAD_EXPR)
        for _ in range(r.choice([2, 2, 3])):
            e = r.choice(EXPR_AT).replace("@", e)
        out.append(text(r.choice(STAT_AT), e) if r.random() < 0.85 else ftext(r.choice(FILE_AT), e))
    return out


# ------------------------------------------------------------- arrays passed on
MAKE = ["[7]", '["s"]', "[none]", "[2.5]", "[[1]]", "[foo]", "[1, 2]", '["t", 3]', "[[4], [5]]", "[1, 2, 3]", "new_array(1)", "new_array(2)", "[abs]", "[0]", "[g]",
        "[1, none, \"x\", 2.5, [9]]"]
# statements that make another reference to a, into c
PASS = ["var c = a", "b[0] = a\n  var c = b[0]", "g = a\n  var c = g", "var c = keep(a)", "var d = [a]\n  var c = d[0]", "var d = [0, [a]]\n  var c = d[1][0]",
        "store(b, a)\n  var c = b[0]", "setg(a)\n  var c = g", "var c = pick([1, a], 1)", "var c = b\n  c[0] = a\n  c = b[0]", "b[0] = 1\n  b[0] = a\n  var c = b[0]",
        "var d = new_array(2)\n  d[1] = a\n  b[0] = d[1]\n  var c = b[0]", "var c = id(a)", "a[0] = a\n  var c = a[0]", "b[0] = b\n  b[0] = a\n  var c = b[0]",
        "var f = keep\n  var c = f(a)", "var c = none\n  var i\n  for (i = 0 to 2)\n    c = a\n  end", "var c\n  if (1)\n    var t = a\n    c = t\n  end"]
CHANGE = ["c[0] = 9", "a[0] = \"n\"", "c[0] = c", "a[0] = b", "c[0] = none", "change(c, 1.5)"]
PASS_DEFS = ("var g\nfunction foo()\n  return 5\nend\nfunction keep(x)\n  var y = x\n  return y\nend\nfunction store(x, y)\n  x[0] = y\nend\nfunction setg(x)\n  g = x\nend\n"
             "function pick(x, i)\n  return x[i]\nend\nfunction change(x, v)\n  x[0] = v\nend\n")


def passed_arrays(r, limit=None):
    fs = []
    for a in MAKE:
        for p in PASS:
            for c in CHANGE:
                fs.append((a, r.choice(MAKE), p, c))
    r.shuffle(fs)
    fs = fs[:limit] if limit else fs
    out = []
    for k in range(0, len(fs), 30):
        part = fs[k:k + 30]
        t = PASS_DEFS
        for i, (a, b, p, c) in enumerate(part):
            t += "function t%d()\n  g = none\n  var a = %s\n  var b = %s\n  %s\n  emit(a, b, c, g)\n  %s\n  emit(a, b, c, g)\n  return c\nend\n" % (i, a, b, p, c)
        out.append(Case(t, [INIT] + [call("t%d" % i) for i in range(len(part))], opt=k // 30 % 2, dump=1, what="arrays passed on"))
    return out


# ------------------------------------------------------------- files whose lines coincide
# declarations of two files; shifted against each other they share line numbers
TWO_FILES = [
    ("function main()\n  var x = 1\n  x = f(x)\n  out(x)\n  x = f(f(x))\n  return h(x)\nend\n", "function f(a)\n  var t = a + 1\n  return t\nend\nfunction h(a)\n  out(a)\n  return a[0]\nend\n"),
    ("function main()\n  var i\n  for (i = 0 to 2)\n    e()\n    out(n(i))\n  end\nend\n", "function e()\nend\nvar k = 5\nfunction n(a)\n  if (a)\n    return n(a - 1)\n  end\n  return k\nend\n"),
    ("var a = g()\nfunction main()\n  while (a > 0)\n    a = d(a)\n  end\n  return s(a)\nend\nfunction last()\nend\n", "function g()\n  return 2\nend\nfunction d(x)\n  return x - 1\nend\nfunction s(x)\n  return 1 / x\nend\n"),
]


def two_files(shift, i, swap=False):
    """the files of TWO_FILES[i], the first moved down by shift lines (the second when negative)"""
    a, b = TWO_FILES[i]
    imp = 'import "b.nano"\n'
    ta = (imp + "\n" * max(0, shift) + a) if not swap else ("\n" * max(0, shift) + a + imp)
    tb = "\n" * max(0, -shift) + b
    return [(b"m.nano", ta.encode()), (b"b.nano", tb.encode())]


def lines_of(files):
    return [(k, l) for k, (_, t) in enumerate(files) for l in range(1, t.count(b"\n") + 1)]
