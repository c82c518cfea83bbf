"""What each property's check explores."""
import os

from . import gen, lib, shapes
from .lib import (Case, CliCase, ScreenCase, INIT, call, spawn, op, I, F, S, NONE, FB, FL_PROGRAM, FL_SERIAL, FL_NORUN, FL_WIDE,
                  FL_TWICE, FL_FILES, FL_JUNK, FL_HISTORY, FL_USED, FL_NEWVM, FL_TEXT)

PROPS = {}


def prop(f):
    PROPS[f.__name__] = f
    return f


def repo_scripts(*dirs):
    """the scripts that come with the repository"""
    out = []
    for d in dirs:
        top = os.path.join(lib.REPO, d)
        if not os.path.isdir(top):
            continue
        for f in sorted(os.listdir(top)):
            if f.endswith(".ccml"):
                with open(os.path.join(top, f), "rb") as fd:
                    out.append((f.encode(), fd.read().replace(b"\0", b" ")))
    return out


def for_test_host(b):
    """the same script with the functions of the test host"""
    import re
    b = re.sub(rb"\b(out|emit|get|id|mk|tick|halt|fail|nores|nest|vars)\b", rb"\1_", b)
    for x, y in ((b"puts", b"out"), (b"putc", b"out"), (b"print", b"out"), (b"gets", b"halt"), (b"getc", b"halt")):
        b = b.replace(x + b"(", y + b"(").replace(x + b" (", y + b" (")
    return b.decode("latin1")


def other_values(r, t):
    """the same script with other numbers and operators"""
    import re
    many = [m for m in re.finditer(r"(?<![\w.])\d+(?![\w.])| (==|<|>|<=|>=|\+|-|\*|and|or) ", t)]
    for m in sorted(r.sample(many, min(len(many), 2)), key=lambda m: -m.start()):
        t = t[:m.start()] + (" %s " % r.choice(["==", "<", ">", "<=", "+", "-", "*", "and", "or", "/", "%"]) if m.group(1) else str(r.randint(0, 12))) + t[m.end():]
    return t


def rounds(ck, budget, stage):
    """quick: one round; thorough: rounds with fresh seeds until the time is used"""
    stage(0)
    k = 1
    while ck.thorough and ck.left(budget) > 0:
        stage(k)
        k += 1


def rand_value(r, t):
    if t == "i":
        return I(r.choice([0, 1, 2, 3, 7, 100, -1, -5, 2**31 - 1, -2**31, r.randint(-1000, 1000)]))
    if t == "f":
        return F(r.choice([0.0, 1.5, -2.25, 0.1, 1e10, -3.0, 100.125, 1e-5]))
    if t == "s":
        return S(r.choice(["", "a", "hello", "x" * 40, "1"]))
    return NONE


def host_calls(r, g, limit=3):
    """calls of generated functions with values from the host"""
    ops = []
    for f in r.sample(g.fns, min(len(g.fns), r.randint(0, limit))):
        a = []
        for i, t in enumerate(f.args):
            if f.rec and i == 0:
                a.append(I(r.randint(0, 3)))
            else:
                a.append(rand_value(r, t if t in "ifs" and r.random() < 0.9 else r.choice("ifsn")))
        ops.append(call(f.name, *a))
    return ops


def general(r, opt=None, h=0, dump=1, flags=0, **kw):
    text, g = gen.program(r, **kw)
    ops = [INIT, call("main")] + host_calls(r, g)
    if r.random() < 0.3:
        ops.append(call("main"))
    return Case(text, ops, opt=r.randint(0, 1) if opt is None else opt, h=h, dump=dump, flags=flags)


# ---------------------------------------------------------------------- C01
def big_programs():
    """programs whose size alone matters: code, jumps, tables, frames"""
    out = []
    body = "\n".join("    x = x + %d" % (i % 7) for i in range(2200))
    out.append("function main()\n  var x = 0\n  var i\n  for (i = 0 to 3)\n    if (i == 1)\n%s\n"
               "    else\n     x = x + 1\n    end\n    out(x)\n  end\n  return x\nend\n" % body)
    out.append("".join("function f%d(a)\n  return a + %d\nend\n" % (i, i) for i in range(300)) +
               "function main()\n  out(f0(1))\n  out(f127(1))\n  out(f128(1))\n  out(f255(1))\n  out(f256(1))\n  return f299(5)\nend\n")
    out.append("".join("var g%d = %d\n" % (i, i * 3) for i in range(300)) +
               "function main()\n  out(g0)\n  out(g127)\n  out(g128)\n  out(g255)\n  out(g256)\n"
               "  g256 = 1\n  g0 = 2\n  out(g255)\n  out(g256)\n  out(g0)\n  return g299\nend\n")
    out.append("function main()\n" + "".join("  var l%d = %d\n" % (i, i) for i in range(300)) +
               "  l255 = 7\n  l256 = 8\n  out(l0)\n  out(l127)\n  out(l128)\n  out(l255)\n  out(l256)\n"
               "  return l299\nend\n")
    out.append("function main()\n" + "".join('  out("s%d")\n' % i for i in range(300)) +
               '  return "s7"\nend\n')
    texts = [w[:k] for w in ("prefixes", "Prefixes", "fixes of a text") for k in range(1, len(w) + 1)] + ["es", "xes", "text", "a text", "a  text", "prefixes1"]
    for ts in (texts, texts[::-1], sorted(texts, key=lambda x: x[::-1])):
        out.append("var g = \"%s\"\nfunction main()\n  out(g)\n%s  return \"%s\"\nend\n" % (ts[3], "".join('  out("%s")\n' % x for x in ts), ts[5]))
    bounds = ["0", "1", "2", "(-1)", "3", "1.5", "2.0", "a", "a + 1", "K"]
    for part in (bounds[:5], bounds[5:]):
        out.append("const K = 2\nfunction main()\n  var a = 1\n  var i\n" +
                   "".join("  for (i = %s to %s)\n    out(i)\n  end\n  out(i)\n" % (x, y) for x in part for y in bounds) + "end\n")
    n = 40
    out.append("function f(%s)\n  out(a0)\n  out(a%d)\n  return a1 - a%d\nend\nfunction main()\n  return f(%s)\nend\n"
               % (", ".join("a%d" % i for i in range(n)), n - 1, n - 2, ", ".join(str(i * i) for i in range(n))))
    out.append("function f(n)\n  if (n == 0)\n    return 0\n  end\n  var m = n * 2\n  var r = f(n - 1)\n"
               "  return r + m - n\nend\nfunction main()\n  out(f(10))\n  return f(250)\nend\n")
    out.append("function main()\n  var i = 0\n  var s = 0\n  while (i < 700)\n    s = s + i\n    i = i + 1\n  end\n"
               "  for (i = 0 to 300)\n    s = s - 1\n  end\n  return s\nend\n")
    out.append("function main()\n  var x = 1\n" + "".join("  if (x == 1)\n" for _ in range(30)) +
               "  out(x)\n" + "  end\n" * 30 + "  return x\nend\n")
    out.append("function main()\n  return " + "(" * 40 + "1" + " + 1)" * 40 + "\nend\n")
    out.append("function main()\n  var a = [" + ", ".join(str(i) for i in range(400)) +
               "]\n  out(a[0])\n  out(a[255])\n  out(a[256])\n  out(a.length)\n  return a[399]\nend\n")
    n = 300
    out.append("function f(%s)\n  out(a0)\n  out(a255)\n  out(a256)\n  return a%d\nend\nfunction main()\n  var h = f\n  out(f(%s))\n  return h(%s)\nend\n"
               % (", ".join("a%d" % i for i in range(n)), n - 1, ", ".join(str(i) for i in range(n)), ", ".join(str(i * 2) for i in range(n))))
    return out


def long_names():
    """names and strings of every kind which agree in all but their last, or only their first, characters"""
    out = []
    for n in (15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 600):
        p = "n" * n
        f = lambda k, q=p: (q + k) if n % 2 else (k + q)
        t = "".join("var g%s = %d\n" % (f(k), i) for i, k in enumerate("abC")) + "const k%s = 77\nconst k%s = 78\n" % (f("a"), f("b"))
        t += "".join("function f%s(x)\n  var r = x + %d\n  return r\nend\n" % (f(k), 100 * i) for i, k in enumerate("abA"))
        t += "function main(%s, %s)\n  var l%s = 1\n  var l%s = 2\n  l%s = 3\n  g%s = 9\n" % (f("a"), f("b"), f("a"), f("b"), f("b"), f("C"))
        t += "  emit(%s)\n" % ", ".join(["g" + f(k) for k in "abC"] + ["f%s(1)" % f(k) for k in "abA"] + ["l" + f("a"), "l" + f("b"), "k" + f("a"), "k" + f("b"), f("a"), f("b")])
        t += "  emit(\"%s\", \"%s\", \"%s\" == \"%s\", arr_.x%s, [f%s == f%s, f%s == f%s])\n" % (f("a"), f("b"), f("a"), f("b"), f("c"), f("a"), f("b"), f("b"), f("b"))
        t += "  var h = f%s\n  return h(g%s)\nend\nfunction main%s()\n  return \"other\"\nend\nvar arr_ = [1]\n" % (f("A"), f("C"), p)
        out.append((t, "main" + p))
    return out


def huge_program(n=4200):
    """more than 65536 bytes of code: jumps over it, functions and calls behind it"""
    body = "\n".join("    x = x + %d" % (i % 7) for i in range(n))
    return ("var g = 5\nfunction early(a)\n  return a + g\nend\nfunction main()\n  var x = 0\n  var i\n  for (i = 0 to 3)\n    if (i == 1)\n%s\n"
            "    else\n     x = x + late(early(i))\n    end\n    out(x)\n  end\n  var h = late\n  emit(h == late, late == early, h == latest, [latest][0] == latest, h, latest == none)\n  return h(x)\nend\n"
            "function late(a)\n  var k = 0\n  while (k < a and k < 3)\n    k = k + 1\n    if (k == 2)\n      out(\"late\")\n    end\n  end\n  return early(k)\nend\n"
            "function latest()\n  var x = late(1) / (g - 5)\n  return x\nend\n" % body)


def import_chain(n, deep):
    """n files, each importing the next; the last one divides by zero"""
    fs = []
    for i in range(n):
        imp = ('import "%sf%d.nano"\n' % ("d/" if deep else "", i + 1)) if i + 1 < n else ""
        fs.append((b"d/" * i * int(deep) + b"f%d.nano" % i,
                   (imp + "\n" * (i % 3) + "var g%d = %d\nfunction f%d()\n  return g%d + %s\nend\n" % (i, i, i, i, "f%d()" % (i + 1) if i + 1 < n else "1 / z") +
                    ("var z = 0\n" if i + 1 == n else "") + ("function main()\n  return f1()\nend\n" if i == 0 else "")).encode()))
    return fs


def import_star(n):
    """one file importing n others, of which the last one divides by zero first"""
    fs = [(b"m.nano", ("".join('import "f%d.nano"\n' % i for i in range(n)) + "function main()\n  return f%d() + f1() + f%d()\nend\n" % (n - 1, n // 2)).encode())]
    for i in range(n):
        fs.append((b"f%d.nano" % i, ("\n" * (i % 3) + "function f%d()\n  return %d / z\nend\n" % (i, i) + ("var z = 0\n" if i == n - 1 else "")).encode()))
    return fs


def many_files(thorough):
    out = []
    for fs in [import_chain(40, 0), import_chain(40, 1), import_star(270)] + ([import_chain(130, 0), import_chain(300, 0), import_star(130)] if thorough else []):
        for o in (0, 1):
            out.append(Case("", [INIT, call("main"), spawn("main")] + [op(12)] * (1 - o), files=fs, flags=FL_FILES, opt=o, dump=1, limit=60, what="many files"))
    return out


@prop
def C01(ck):
    def stage(k):
        r = ck.rng("general", k)
        cases = [general(r) for _ in range(ck.n(900, 1500))]
        cases += [general(r, wide=0.2, budget=4000) for _ in range(ck.n(60, 100))]
        cases += [general(r, loops=3, ifs=2, nest=5, stmts=(3, 9), budget=6000) for _ in range(ck.n(120, 200))]
        cases += [general(r, globs=(2, 8), call=1.5, setg=2, odd=0.0) for _ in range(ck.n(150, 300))]
        cases += [general(r, fun=3, call=1.5) for _ in range(ck.n(100, 200))]
        cases += [general(r, tick=1.0, loops=3, ifs=2, empty=0.4) for _ in range(ck.n(150, 300))]
        ck.traces_stage("random programs %d" % k, cases)
    ck.traces_stage("large programs", [Case(t, [INIT, call("main")], opt=o, what="large program")
                                       for t in big_programs() for o in (0, 1)] +
                    [Case(huge_program(), [INIT, call("main"), call("latest"), spawn("latest"), op(4, n=1000)], opt=o, limit=60, what="huge program") for o in (0, 1)] +
                    [Case("function r(n)\n  if (n == 0)\n    return 0\n  end\n  return 1 + r(n - 1)\nend\nfunction main()\n  out(r(%d))\n  return r(%d)\nend\n" % (d, d // 2),
                          [INIT, call("main")], opt=d // 1000 % 2, limit=60, what="deep recursion") for d in (1000, ck.n(2000, 4000))] +
                    [Case(t, [INIT, call("main", I(4), S("v")), call(n), call(n[:-1])], opt=o, flags=w, h=160, what="long names") for t, n in long_names() for o in (0, 1) for w in (0, FL_SERIAL)])
    r = ck.rng("scripts")
    cases = []
    for f, b in repo_scripts("tests/xpass", "examples/misc"):
        t = for_test_host(b)
        if len(t) > 4000 or b"import" in b:
            continue
        if f.startswith((b"mandelbrot", b"alphabet", b"uppercase", b"pi.", b"rand2")):
            continue
        for k in range(ck.n(3, 20)):
            m = t if k == 0 else mutate(r, t, 1) if k % 2 else other_values(r, t)
            cases.append(Case(m, [INIT, call("main")], opt=r.randint(0, 1), dump=0, what="script " + f.decode()))
    # a change can make a script endless, which is nothing to compare, or too long
    changed = [c for i, c in enumerate(cases) if i % ck.n(3, 20)]
    probes = [Case(c.files[0][1], [INIT, spawn("main"), op(4, n=20000)], opt=c.opt, dump=1, limit=2) for c in changed]
    lib.observe(lib.number(probes), lib.build())
    ended = lambda o: o["rc"] != 1 or o["end"] != 2 and (len(o["log"]) == 0 or o["log"][-1][0] != 104 or o["log"][-1][2:4] != [0, 0])
    endless = set(id(c) for c, x in zip(changed, probes) if not ended(x.obs))
    cases = [c for c in cases if id(c) not in endless]
    if cases:
        ck.traces_stage("scripts of the repository", cases)
    r = ck.rng("shapes")
    ck.traces_stage("every small body", shapes.shape_cases(r, shapes.bodies_to(3), "every small body", opts=()))
    big = r.sample(shapes.blocks(4), ck.n(1500, 33000)) + [shapes.random_block(r, r.randint(5, 9)) for _ in range(ck.n(1200, 10000))]
    ck.traces_stage("larger bodies", shapes.shape_cases(r, big, "larger bodies", opts=()))
    rounds(ck, 600, stage)


# ---------------------------------------------------------------------- C02
BINOPS = ["+", "-", "*", "/", "%", "<", ">", "<=", ">=", "==", "and", "or"]
B_INTS = [0, 1, -1, 2, -2, 3, -3, 5, -7, 10, 16, 100, 127, 128, 255, 256, -128, -256, 32767, 32768, -32768,
          65535, 65536, 46340, 46341, -46341, 999999, 16777215, 16777216, 16777217, -16777217, 33554433,
          1000000007, 2**30, -2**30, 2**31 - 1, 2**31 - 2, -2**31, -2**31 + 1]
B_BITS = [0x00000000, 0x80000000, 0x00000001, 0x80000001, 0x007fffff, 0x00800000, 0x3f800000, 0xbf800000,
          0x3f000000, 0x40000000, 0xc0200000, 0x40490fdb, 0x3dcccccd, 0x4b7fffff, 0x4b800000, 0x4b800001,
          0x4f000000, 0xcf000000, 0x4effffff, 0x7f7fffff, 0xff7fffff, 0x7f800000, 0xff800000, 0x7fc00000,
          0x3f7fffff, 0x3f800001, 0x34000000, 0x33800000, 0x501502f9, 0x2edbe6ff, 0x47c35000, 0x3fc00000]
B_STRS = ["", "a", "b", "ab", "abc", "0", "1", " ", "none", "x" * 63, "x" * 64, "y" * 127, "z" * 128,
          "w" * 255, "w" * 256, "long " * 60, "q" * 1023, "q" * 1024, "q" * 1025, "Zz\xff\x80", "1.500000"]


def scalar(r, t):
    if t == "i":
        return I(r.choice(B_INTS) if r.random() < 0.75 else r.randint(-2**31, 2**31 - 1))
    if t == "f":
        x = r.random()
        if x < 0.6:
            return FB(r.choice(B_BITS))
        if x < 0.8:
            return FB(r.getrandbits(32))
        return F(r.choice([1, 10, 100, 1e4, 1e-3]) * r.uniform(-10, 10))
    if t == "s":
        return S(r.choice(B_STRS))
    return NONE


def operator_program():
    fs = []
    for i, o in enumerate(BINOPS):
        fs.append("function o%d(a, b)\n  return a %s b\nend\n" % (i, o))
    for i, o in enumerate(["+", "-", "*", "/"]):
        fs.append("var gc%d\nfunction c%d(a, b)\n  var x = a\n  x %s= b\n  return x\nend\n" % (i, i, o))
        fs.append("function gg%d(a, b)\n  gc%d = a\n  gc%d %s= b\n  return gc%d\nend\n" % (i, i, i, o, i))
    fs.append("function u0(a)\n  return -a\nend\nfunction u1(a)\n  return not a\nend\n")
    fs.append("function t0(a)\n  if (a)\n    return 1\n  end\n  return 2\nend\n")
    fs.append("function t1(a)\n  while (a)\n    return 1\n  end\n  return 2\nend\n")
    fs.append("function t2(a)\n  if (not a)\n    return 1\n  else\n    return 2\n  end\nend\n")
    return "".join(fs)


def int_text(n, lit=True):
    """an integer as source text"""
    if n == -2**31:
        return "(-2147483647 - 1)"
    return str(n) if n >= 0 else "(%d)" % n


def flt_text(bits):
    import struct
    x = struct.unpack("<f", struct.pack("<I", bits))[0]
    if x != x or x in (float("inf"), float("-inf")):
        return None
    s = "%.60f" % abs(x)
    s = s.rstrip("0")
    if s.endswith("."):
        s += "0"
    if len(s) > 60:
        return None
    return s if bits < 0x80000000 else "(-%s)" % s


OTHERS = ["none", "7", "(-3)", "0", "2.5", "0.0", '"t"', '""', "[1, 2]", "mk(4)", "new_array(1)", "arr", "arr2", "abs",
          "out", "foo", "main", "fv", "mk(0)", "mk(1)", "mk(2)", "mk(3)", "get(0)", "id(foo)", "foo()"]
OTHERS_DEF = 'var arr = [1, 2]\nvar arr2 = arr\nvar fv = foo\nfunction foo()\n  return 5\nend\n'


def calls_case(defs, exprs, what, opt=1, h=0, inputs=(), **kw):
    """each expression in a function of its own, called by the host"""
    t = [defs]
    for i, e in enumerate(exprs):
        t.append("function t%d()\n  return %s\nend\n" % (i, e))
    if "function main" not in defs:
        t.append("function main()\nend\n")
    return Case("".join(t), [INIT] + [call("t%d" % i) for i in range(len(exprs))], opt=opt, h=h,
                inputs=list(inputs), what=what, **kw)


def chunks(xs, n):
    return [xs[i:i + n] for i in range(0, len(xs), n)]


@prop
def C02(ck):
    text = operator_program()
    names = ["o%d" % i for i in range(len(BINOPS))]
    comp = ["c%d" % i for i in range(4)] + ["gg%d" % i for i in range(4)]

    def host_args(r, n, per=60):
        cases = []
        for _ in range(n):
            ops = [INIT]
            for _ in range(per):
                ta, tb = r.choice("iiifffsn"), r.choice("iiifffsn")
                if r.random() < 0.1:
                    ops.append(call(r.choice(["u0", "u1", "t0", "t1", "t2"]), scalar(r, ta)))
                else:
                    ops.append(call(r.choice(names if r.random() < 0.8 else comp), scalar(r, ta), scalar(r, tb)))
            cases.append(Case(text, ops, opt=r.randint(0, 1), what="operators on host values", dump=0))
        return cases

    def literal_pairs(r, n, per=40):
        cases = []
        for _ in range(n):
            es = []
            for _ in range(per):
                def lit():
                    k = r.choice("iiiiffsn")
                    if k == "i":
                        return int_text(r.choice(B_INTS))
                    if k == "f":
                        return flt_text(r.choice(B_BITS)) or "1.5"
                    return '"%s"' % r.choice(B_STRS[:10]) if k == "s" else "none"
                es.append("%s %s %s" % (lit(), r.choice(BINOPS[:3] + BINOPS[5:]), lit()))
            cases.append(calls_case("", es, "operators on literals", opt=r.randint(0, 1), dump=0))
        return cases

    # every pair of kinds of value with every operator
    pairs = [(a, o, b) for a in OTHERS for b in OTHERS for o in BINOPS]
    r = ck.rng("kinds")
    if not ck.thorough:
        r.shuffle(pairs)
        pairs = pairs[:2400]
    exprs = ["%s %s %s" % p for p in pairs] + ["-%s" % a for a in OTHERS] + ["not %s" % a for a in OTHERS]
    ck.traces_stage("pairs of kinds", [calls_case(OTHERS_DEF, es, "kinds of operand", inputs=[S("in")], dump=0, flags=FL_PROGRAM,
                                                  opt=k % 2)
                                       for k, es in enumerate(chunks(exprs, 60))])

    # small boundary sets, all pairs, all operators
    ints = [I(x) for x in ([0, 1, -1, 2, -2, 7, -7, 46341, -46341, 65536, 2**31 - 1, -2**31, -2**31 + 1]
                           if not ck.thorough else B_INTS)]
    flts = [FB(x) for x in ([0, 0x80000000, 1, 0x3f800000, 0xc0200000, 0x7f7fffff, 0x7f800000, 0x7fc00000,
                             0x4b800001, 0x3dcccccd] if not ck.thorough else B_BITS)]
    ops = [call(n, a, b) for n in names for x, y in ((ints, ints), (flts, flts), (ints[:7], flts), (flts, ints[:7]))
           for a in x for b in y]
    if not ck.thorough:
        r.shuffle(ops)
        ops = ops[:4200]
    ck.traces_stage("boundary values", [Case(text, [INIT] + c, what="operators on boundary values", dump=0)
                                        for c in chunks(ops, 100)])

    # the text of numbers, and strings that differ in one place
    nums = [I(x) for x in B_INTS + [10 ** k for k in range(10)] + [-10 ** k for k in range(10)]]
    nums += [FB(x) for x in B_BITS] + [F(x * 10.0 ** k) for k in range(-8, 38, ck.n(3, 1)) for x in (1.0, -2.5, 9.9999995)]
    ops = [call("o0", *((S("t"), v) if i % 2 else (v, S("t")))) for i, v in enumerate(nums)]
    for n in (1, 2, 8, 31, 32, 33, 63, 64, 65, 100, 128, 255, 256, 257, 300, 1000):
        x = [97 + i % 26 for i in range(n)]
        for at in {0, n // 2, n - 1, n - 2, 15, 16, 32, 63, 64, 65, 127, 128, 255, 256}:
            if 0 <= at < n:
                y = x[:at] + [x[at] ^ 1] + x[at + 1:]
                ops += [call("o9", (3, x), (3, y)), call("o9", (3, y), (3, x)), call("o9", (3, x[:at]), (3, x))]
        ops += [call("o9", (3, x), (3, list(x))), call("o9", (3, [c - 32 for c in x]), (3, x)), call("o0", (3, x), (3, x))]
    assert BINOPS[0] == "+" and BINOPS[9] == "=="
    ck.traces_stage("texts", [Case(text, [INIT] + c, what="texts of values and comparisons of texts", dump=0) for c in chunks(ops, 80)])

    def stage(k):
        r = ck.rng("random", k)
        ck.traces_stage("random operands %d" % k,
                        host_args(r, ck.n(40, 200)) + literal_pairs(r, ck.n(15, 60)) +
                        [general(r, odd=0.2, depth=4) for _ in range(ck.n(120, 200))])
    rounds(ck, 600, stage)


# ---------------------------------------------------------------------- C03
ALLBIN = ["and", "or", "<", ">", "<=", ">=", "==", "+", "-", "*", "/", "%"]


def recase(r, w):
    return "".join(c.upper() if r.random() < 0.5 else c for c in w)


def soup(r, names, n, lits=0.2):
    """operators, prefixes and postfixes strung together without a plan"""
    def atom(d=0):
        x = r.random()
        if x < lits:
            a = r.choice(["1", "2", "3", "7", "0", "10", "2.5", "0.5", '"s"'])
        elif x < lits + 0.1:
            a = "arr[%s]" % r.choice(["0", "1", "2", names[0] + " - " + names[0], "1 - 1"])
        elif x < lits + 0.15:
            a = "f(%s)" % soup(r, names, r.randint(0, 2), lits)
        elif x < lits + 0.2:
            a = "mm(%s, %s)" % (soup(r, names, r.randint(0, 2), lits), soup(r, names, r.randint(0, 1), lits))
        elif x < lits + 0.24:
            a = "arr.length"
        elif x < lits + 0.27:
            a = "nest[1][%s]" % r.choice(["0", "1"])
        elif x < lits + 0.36 and d < 3:
            a = "(%s)" % soup(r, names, r.randint(0, 3), lits)
        else:
            a = r.choice(names)
        y = r.random()
        if y < 0.12:
            a = "-" + r.choice(["", " "]) + a
        elif y < 0.24:
            a = r.choice(["not ", "not ", "NOT ", "Not "]) + a
        elif y < 0.27:
            a = "- -" + a
        elif y < 0.30:
            a = "not not " + a
        elif y < 0.32:
            a = "-(not " + a + ")"
        elif y < 0.34:
            a = "not -" + a
        return a
    s = atom()
    for _ in range(n):
        o = r.choice(ALLBIN)
        if o in ("and", "or"):
            o = " " + (recase(r, o) if r.random() < 0.2 else o) + " "
        else:
            o = r.choice(["", " ", "  "]) + o + r.choice([" ", "", "\t"])
        s += o + atom()
    return s


GRAMMAR_DEFS = ("var arr = [4, 9, 2]\nvar nest = [[1, 2], [30, 40]]\nfunction f(x)\n  return x - 1\nend\n"
                "function mm(x, y)\n  return x * 10 - y\nend\n")


def args_case(exprs, triples, what, opt, defs=GRAMMAR_DEFS):
    t = [defs]
    ops = [INIT]
    for i, e in enumerate(exprs):
        t.append("function t%d(a, b, c, d)\n  return %s\nend\n" % (i, e))
        for v in triples:
            ops.append(call("t%d" % i, *v))
    return Case("".join(t), ops, opt=opt, what=what, dump=0)


def relayout(r, text):
    """another layout of the same tokens"""
    out = []
    for line in text.split("\n"):
        if r.random() < 0.25:
            out.append(r.choice(["", "#", "# end", "   # \"", "\t", " \t ", "#" * 5, "# if (x) ( [ \"",
                                 "# " + "long " * 20]))
        g = gen.Gen(r)
        s = line
        if s.strip():
            s = g.noise(s)
            s = r.choice(["", " ", "\t", "    "]) + s + r.choice(["", "", " ", "\t", " # c", "#c", " # x y \" z"])
        out.append(s)
    eol = r.choice(["\n", "\n", "\r\n", "\n\n", "\r\n\r\n"])
    t = eol.join(out)
    if r.random() < 0.3:
        t = t.rstrip("\r\n") + r.choice(["", "\n", "\n#", "\n# last", " # last", "\n\n\n", "\r\n", "\t"])
    if r.random() < 0.3:
        t = r.choice(["\n", "# first\n", "\r\n", "   \n", "\t\n\n"]) + t
    return t


def respace(r, text, spread):
    """the same tokens with no space that is not needed, or with space around each of them"""
    import re
    out = []
    for line in text.split("\n"):
        s = ""
        for t in re.findall(r'"[^"]*"|#.*|\d+\.\d+|\w+|[=<>!+\-*/%]=|\S', line):
            glue = (s[-1:].isalnum() or s[-1:] == "_") and (t[0].isalnum() or t[0] == "_") or s[-1:] in set("=<>!+-*/%") and t[0] == "=" or s[-1:].isdigit() and t[0] == "."
            s += (r.choice([" ", "\t", "  ", " \t "]) if spread and s else " " if glue else "") + t
        out.append(s)
    return "\n".join(out)


def halfway_literals(r, n):
    """decimals at and right beside the middle between two neighbouring floats"""
    from fractions import Fraction
    es = []
    for _ in range(n):
        m, e = r.choice([2**23, 2**24 - 1, r.randrange(2**23, 2**24)]), r.choice([-23, -24, -22, -20, -13, -30, -3, 0, 1, 2, 7])
        x = Fraction(2 * m + 1) * Fraction(2) ** (e - 1)
        d = 0
        while (x * 10 ** d).denominator != 1:
            d += 1
        t = str((x * 10 ** d).numerator).rjust(d + 1, "0")
        whole, frac = t[:len(t) - d], t[len(t) - d:]
        pad = "0" * r.choice([0, 1, 5, 12, 20])
        es.append(whole + "." + frac + r.choice(["", pad]))
        es.append(whole + "." + frac + pad + "1")
        y = x - Fraction(1, 10 ** (d + 1 + len(pad)))
        t = str((y * 10 ** (d + 1 + len(pad))).numerator).rjust(d + 2 + len(pad), "0")
        es.append(t[:len(t) - d - 1 - len(pad)] + "." + t[len(t) - d - 1 - len(pad):])
    return es


def literal_exprs(r, n):
    es = []
    for _ in range(n):
        k = r.random()
        if k < 0.3:
            es.append(str(r.choice([0, 1, 9, 10, 99, 2147483647, 2147483646, 1000000000, 16777217, 255, 256,
                                    r.randint(0, 2**31 - 1), r.randint(0, 2**16)])))
        elif k < 0.4:
            es.append("0" * r.randint(1, 4) + str(r.randint(0, 99999)))
        elif k < 0.7:
            a = str(r.choice([0, 0, 1, 3, 12, 123, 16777216, 99999, 4194304, r.randint(0, 10**7)]))
            b = "".join(r.choice("0123456789") for _ in range(r.choice([0, 1, 1, 2, 3, 5, 6, 7, 8, 9, 12])))
            es.append(a + "." + b)
        else:
            n2 = r.choice([0, 1, 2, 5, 20, 31, 32, 60, 127, 128, 129, 255, 256, 257, 500])
            es.append('"' + "".join(r.choice("abcXYZ 0189_#()[]{}<>=+-*/%,.;:!?@&|^~`'$\t\\") for _ in range(n2)) + '"')
    return es


def identifier_program(r):
    """one program that uses many names close to keywords"""
    ns = r.sample(gen.TRICKY, 10) + ["%s%s" % (k, r.choice(["_", "1", "x", "s", "_" + k])) for k in gen.KEYWORDS] + \
        ["%s%s" % (r.choice(["_", "x", "a", "un"]), k) for k in gen.KEYWORDS] + ["mainx", "Main", "MAIN", "e", "E1"]
    ns = [n for n in dict.fromkeys(ns) if n.lower() not in gen.KEYWORDS]
    r.shuffle(ns)
    g, l, f = ns[:8], ns[8:24], ns[24:30]
    t = []
    for i, n in enumerate(g):
        t.append("var %s = %d" % (n, i * 3))
    for i, n in enumerate(f):
        t.append("function %s(%s)\n  return %s * %d\nend" % (n, l[0], l[0], i + 2))
    t.append("function main()")
    for i, n in enumerate(l):
        t.append("  %s %s = %d" % (recase(r, "var"), n, i * 7))
    for n in l + g:
        t.append("  out(%s)" % n)
    for n in f:
        t.append("  out(%s(%s + %s))" % (n, r.choice(l), r.choice(g)))
    t.append("  %s (%s %s %s)\n    out(1)\n  %s\n    out(2)\n  %s" %
             (recase(r, "if"), r.choice(l), recase(r, "and"), r.choice(g), recase(r, "else"), recase(r, "end")))
    t.append("  %s (%s < 5)\n    %s = 5\n  %s" % (recase(r, "while"), l[0], l[0], recase(r, "end")))
    t.append("  %s (%s = 1 %s 3)\n    out(%s)\n  %s" % (recase(r, "for"), l[1], recase(r, "to"), l[1], recase(r, "end")))
    t.append("  out(%s == %s)" % (recase(r, "none"), l[2]))
    t.append("  %s %s %s\n%s\n" % (recase(r, "return"), recase(r, "not"), l[3], recase(r, "end")))
    return "\n".join(t)


def similar_names(n, kind):
    """names that agree except in one place, in every kind of declaration"""
    base = [chr(97 + i % 26) for i in range(n)]
    ns = []
    for at in sorted({0, n // 2, n - 1, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 254, 255}):
        if at < n:
            ns += ["".join(base[:at] + [c] + base[at + 1:]) for c in ("_", base[at].upper(), "9" if at else "q")]
    ns += ["".join(base) + "1", "".join(base), "_" + "".join(base)]
    ns = [x for x in dict.fromkeys(ns) if x.lower() not in gen.KEYWORDS and x not in ("out", "main")]
    show = "".join("  out(%s)\n" % x for x in ns)
    if kind == 0:
        return "".join("var %s = %d\n" % (x, i) for i, x in enumerate(ns)) + "function main()\n%send\n" % show
    if kind == 1:
        return "function main()\n" + "".join("  var %s = %d\n" % (x, i) for i, x in enumerate(ns)) + show + "end\n"
    if kind == 2:
        return "".join("function %s(x)\n  return x + %d\nend\n" % (x, i) for i, x in enumerate(ns)) + \
            "function main()\n" + "".join("  out(%s(100))\n" % x for x in ns) + "end\n"
    if kind == 3:
        return "function f(%s)\n%send\nfunction main()\n  f(%s)\nend\n" % (", ".join(ns), show, ", ".join(str(i) for i in range(len(ns))))
    return "".join("const %s = %d\n" % (x, i) for i, x in enumerate(ns)) + "function main()\n%send\n" % show


@prop
def C03(ck):
    r = ck.rng("pairs")
    ck.traces_stage("similar names", [Case(similar_names(n, k), [INIT, call("main")], opt=n % 2, what="similar names")
                                      for n in (1, 2, 3, 8, 9, 16, 17, 31, 32, 33, 40, 64, 65, 130, 256, 300) for k in range(5)])
    trip = [(I(7), I(2), I(3), I(1)), (I(0), I(5), I(-4), I(2)), (I(1), I(0), I(2), I(0))]
    exprs = []
    for o1 in ALLBIN:
        for o2 in ALLBIN:
            exprs.append("a %s b %s c" % (o1, o2))
    for o1 in ALLBIN:
        for p in ("-a %s b", "not a %s b", "a %s -b", "a %s not b", "- -a %s b", "not -a %s b", "-a %s -b",
                  "not a %s not b", "arr[1] %s arr[0]", "f(a) %s f(b)", "-arr[1] %s b", "-f(a) %s c", "not f(a) %s b",
                  "a %s arr.length", "-arr.length %s b", "(a %s b)", "-(a %s b)", "not (a %s b)"):
            exprs.append(p % o1)
    more = []
    for o1 in ALLBIN:
        for o2 in ALLBIN:
            more += ["a %s (b %s c)" % (o1, o2), "(a %s b) %s c" % (o1, o2), "-a %s b %s c" % (o1, o2),
                     "not a %s b %s c" % (o1, o2), "a %s -b %s c" % (o1, o2), "a %s not b %s c" % (o1, o2),
                     "a %s b %s -c" % (o1, o2), "a %s b %s not c" % (o1, o2)]
            for o3 in ALLBIN:
                more.append("a %s b %s c %s d" % (o1, o2, o3))
    r.shuffle(more)
    exprs += more if ck.thorough else more[:600]
    ck.traces_stage("operator combinations", [args_case(es, trip, "grouping", k % 2)
                                              for k, es in enumerate(chunks(exprs, 25))])
    # the same with literals, where the optimiser folds
    lits = []
    for e in exprs:
        if "[" in e or "f(" in e or "." in e:
            continue
        for v in (("7", "2", "3", "1"), ("0", "5", "4", "2")):
            s = "".join(dict(zip("abcd", v)).get(w, w) if len(w) == 1 else w for w in split_words(e))
            lits.append(s)
    r.shuffle(lits)
    lits = lits if ck.thorough else lits[:500]
    ck.traces_stage("literal combinations", [calls_case("", es, "grouping of literals", opt=k % 2, dump=0)
                                             for k, es in enumerate(chunks(lits, 30))])

    def stage(k):
        r = ck.rng("random", k)
        cases = []
        vals = [tuple(I(r.randint(-9, 9)) for _ in range(4)), (I(3), F(0.5), I(-2), I(0)), (I(1), I(1), I(0), NONE)]
        for i in range(ck.n(40, 200)):
            cases.append(args_case([soup(r, "abcd", r.randint(1, 7)) for _ in range(20)], vals, "token soup", i % 2))
        for i in range(ck.n(15, 60)):
            cases.append(calls_case("", literal_exprs(r, 40), "literals", opt=i % 2, dump=0))
        for i in range(ck.n(8, 40)):
            cases.append(calls_case("", halfway_literals(r, 10), "literals between two floats", opt=i % 2, dump=0))
        for i in range(ck.n(60, 200)):
            cases.append(Case(relayout(r, identifier_program(r)), [INIT, call("main")], opt=i % 2, what="names"))
        for i in range(ck.n(250, 600)):
            t, g = gen.program(r, layout=0.5, blank=0.3, tricky=0.6)
            if i % 2:
                t = relayout(r, t)
            elif i % 4:
                t = respace(r, t, i % 8 == 2)
            cases.append(Case(t, [INIT, call("main")], opt=r.randint(0, 1), what="layout"))
        es = [soup(r, "abcd", r.randint(1, 5)) for _ in range(ck.n(300, 1500))] + ["not(a)", "not(not(a))and(b)", "(a)or(b)", "(a)and(not(b))or(c)", "not-a", "not[a][0]", '"s"and(a)', "not\"\"", "a<-b", "a- -b", "a*-b", "[a][0]or[b][0]", "f(a)and f(b)"]
        for i, part in enumerate(chunks(es, 20)):
            cases.append(args_case([respace(r, e, i % 3 == 0) for e in part], vals, "expressions without space", i % 2))
        ck.traces_stage("random text %d" % k, cases)
    rounds(ck, 600, stage)


def split_words(e):
    import re
    return re.findall(r"\w+|\W", e)


# ---------------------------------------------------------------------- C04
def both(text, ops, what, **kw):
    return [Case(text, ops, opt=o, what=what, **kw) for o in (0, 1)]


DEAD_CONDS = ["0", "1", "none", '""', '"x"', "0.0", "0.5", "1.5", "-1", "not 0", "not 1", "1 == 1", "2 < 1", "3 - 3",
              "1 and 0", "0 or 1", "CZ", "CO", "CZ and CO", "not CZ", "CO - 1", "1 - CO", "-CZ", "-(-1)",
              "not not 2", "CO == 1", "2 * CZ", "5 / 5", "5 / 6", "5 % 5", "2147483647 + 1 < 0", "CS", "CF", "foo",
              "abs", "[0]", "get(0)", "get(1)"]


def dead_code_program(r):
    """branches on constants with declarations, returns, nested blocks"""
    def block(d, ind):
        out = []
        for _ in range(r.randint(0, 3)):
            k = r.random()
            if k < 0.3:
                n = "x%d" % next(count)
                out.append("var %s%s" % (n, r.choice(["", " = %d" % r.randint(0, 9), " = g"])))
                out.append("out(%s)" % n)
            elif k < 0.5:
                out.append("out(%d)" % r.randint(0, 99))
            elif k < 0.6:
                out.append("g = g + %d" % r.randint(1, 5))
            elif k < 0.66:
                out.append("return %s" % r.choice(["1", "g", "CO", "none", ""]))
            elif k < 0.9 and d > 0:
                out.append("if (%s)" % r.choice(DEAD_CONDS))
                out += block(d - 1, ind + 1)
                if r.random() < 0.5:
                    out.append("else")
                    out += block(d - 1, ind + 1)
                out.append("end")
            elif d > 0:
                w = "w%d" % next(count)
                out.append("var %s = 0" % w)
                c = r.choice(DEAD_CONDS)
                out.append("while ((%s < %d) and %s)" % (w, r.randint(0, 2), "(" + c + ")")
                           if r.random() < 0.7 else "while (%s)" % r.choice(["0", "CZ", "none", "not 1", '""', "1 - 1"]))
                out += block(d - 1, ind + 1)
                out += ["%s += 1" % w, "end"]
        return ["  " + x for x in out]
    import itertools
    count = itertools.count()
    t = ["const CZ = 0", "const CO = 1", 'const CS = "c"', "const CF = 2.5", "var g = 10",
         "function foo()", "  return 3", "end"]
    for i in range(3):
        t += ["function t%d()" % i] + block(4, 1) + ["end"]
    return "\n".join(t) + "\n"


def const_exprs(r, n, depth=3):
    """expressions of literals and constants only"""
    def e(d):
        if d <= 0 or r.random() < 0.15:
            return r.choice([str(r.randint(0, 9)), int_text(r.choice(B_INTS)), "K1", "K2", "K3", "K4"])
        k = r.random()
        if k < 0.1:
            return "-" + r.choice(["%s", "(%s)"]) % e(d - 1)
        if k < 0.2:
            return "(not %s)" % e(d - 1)
        if k < 0.28:
            return r.choice(["g", "a", "f(%s)" % e(d - 1), '"s"', "1.5", "none"])
        a, b = e(d - 1), e(d - 1)
        o = r.choice(ALLBIN)
        if r.random() < 0.6:
            a = "(%s)" % a
        if r.random() < 0.6:
            b = "(%s)" % b
        return "%s %s %s" % (a, o, b)
    return [e(r.randint(1, depth)) for _ in range(n)]


PARTLY_DEFS = ('const K1 = 3\nconst K4 = 0\nvar g = 11\nvar z = 0\nvar arr = [4, 0, 2]\nfunction f(x)\n  out(x)\n  return x\nend\n')
PARTLY_CONST = ["0", "1", "2", "(-1)", "K1", "K4", "2147483647", "(1 - 1)", "(not 1)", "(3 < 2)", "0.0", "1.0", '""', '"s"', "none"]
PARTLY_OTHER = ["f(0)", "f(2)", "f(1.5)", 'f("t")', "f(none)", "g", "z", "arr", "arr[1]", "f", "none[0]", "g / z", "arr.length", "(g < 12)", "(f(1) and f(0))", "f(3) - f(3)"]
PARTLY_AT = ["  return %s\n", "  var v = %s\n  out(v)\n", "  z = %s\n  out(z)\n  z = 0\n", "  if (%s)\n    out(1)\n  else\n    out(2)\n  end\n",
             "  while (%s)\n    return 5\n  end\n  return 6\n", "  if (not (%s))\n    return 1\n  end\n", "  out(arr[%s])\n", "  return \"p\" + (%s)\n", "  var v = 1\n  v += %s\n  return v\n",
             "  return (%s) and f(7)\n", "  return 0 or (%s)\n", "  return [1, %s, f(8)]\n", "  return 2 * (%s) - 1\n", "  return not (%s)\n", "  return f(%s) == f(0)\n", "  arr[0] = %s\n  out(arr)\n  arr[0] = 4\n",
             "  var i\n  for (i = %s to 2)\n    out(i)\n  end\n  return i\n", "  var i\n  for (i = 1 to %s)\n    out(i)\n    if (i > 3)\n      return i\n    end\n  end\n"]


def partly_constant(r, n):
    """one operand known when compiling, the other not, in every kind of statement"""
    import itertools
    every = [(o, c, x, side, at) for o in ALLBIN for c in PARTLY_CONST for x in PARTLY_OTHER for side in (0, 1) for at in range(len(PARTLY_AT))]
    every = every if n is None else r.sample(every, n)
    cases = []
    alone = [e for e in every if e[0] in "/%" and e[3] == 1 and e[1] in ("0", "K4", "(1 - 1)", "(not 1)", "(3 < 2)")]
    rest = [e for e in every if e not in set(alone)]
    for part in chunks(rest, 30) + [[e] for e in alone]:
        t = [PARTLY_DEFS]
        for i, (o, c, x, side, at) in enumerate(part):
            e = "%s %s %s" % ((c, o, x) if side == 0 else (x, o, c))
            t.append("function t%d()\n%send\n" % (i, PARTLY_AT[at] % e))
        cases += both("".join(t), [INIT] + [call("t%d" % i) for i in range(len(part))], "partly constant", dump=0)
    return cases


@prop
def C04(ck):
    r = ck.rng("fold")
    pairs = [(o, a, b) for o in ALLBIN for a in B_INTS[::1 if ck.thorough else 3] for b in B_INTS[::1 if ck.thorough else 3]]
    if not ck.thorough:
        r.shuffle(pairs)
        pairs = pairs[:900]
    zero = [p for p in pairs if p[0] in "/%" and p[2] == 0]
    pairs = [p for p in pairs if p not in zero]
    cases = []
    for es in chunks(["%s %s %s" % (int_text(a), o, int_text(b)) for o, a, b in pairs], 45):
        for o in (0, 1):
            cases.append(calls_case("", es, "constant folding", opt=o, dump=0))
    for o, a, b in zero[:12]:
        for z in (0, 1):
            cases.append(calls_case("", ["%s %s %s" % (int_text(a), o, int_text(b))], "constant division by zero", opt=z))
    ck.traces_stage("folding of every operator", cases)
    ck.traces_stage("partly constant expressions", partly_constant(r, ck.n(3000, 40000)))
    bodies = shapes.bodies_to(2) + r.sample(shapes.blocks(3), ck.n(700, 1736)) + [shapes.random_block(r, r.randint(4, 8)) for _ in range(ck.n(500, 8000))]
    ck.traces_stage("constant conditions in every small body", shapes.shape_cases(r, bodies, "constant conditions", const=0.8, opts=(0, 1)))

    defs = "const K1 = 3\nconst K2 = -(4)\nconst K3 = K1 * 2\nconst K4 = 0\nvar g = 11\nvar a = 2\nfunction f(x)\n  return x + 1\nend\n"

    def stage(k):
        r = ck.rng("random", k)
        cases = []
        for i in range(ck.n(12, 60)):
            es = const_exprs(r, 200)
            for e in chunks(es, 8):
                for o in (0, 1):
                    cases.append(calls_case(defs, e, "constant expressions", opt=o, dump=0))
        for i in range(ck.n(110, 400)):
            t = dead_code_program(r)
            cases += both(t, [INIT] + [call("t%d" % j) for j in range(3)], "constant conditions", inputs=[I(0), I(1)])
        for i in range(ck.n(220, 600)):
            t, g = gen.program(r, lits=0.85, constcond=0.5, consts=(1, 5), dead=0.5, ret=0.15)
            cases += both(t, [INIT, call("main")] + host_calls(r, g), "programs with many constants")
        for i in range(ck.n(120, 300)):
            t, g = gen.program(r)
            cases += both(t, [INIT, call("main")], "programs")
        ck.traces_stage("optimised and not %d" % k, cases)
    rounds(ck, 600, stage)


# ---------------------------------------------------------------------- C05
import re

TOKEN = re.compile(rb'"[^"\n]*"|\d+\.\d*|\w+|<=|>=|==|\+=|-=|\*=|/=|[^\s\w]|\n')
INSERTS = [b"end", b"if", b"else", b"(", b")", b"[", b"]", b",", b"=", b"==", b"+", b"-", b"*", b"/", b"%", b"<", b"not",
           b"and", b"or", b"var", b"const", b"function", b"return", b"while", b"for", b"to", b"none", b"import", b"1", b"2.5",
           b'"s"', b"x", b"main", b"out", b"abs", b".", b"\n", b"+=", b"-=", b"@", b"!", b"$", b'"', b"0", b"length",
           b"<=", b">=", b";", b":", b"{"]


def mutate(r, text, n=1):
    b = text.encode("latin1")
    for _ in range(n):
        toks = [(m.start(), m.end()) for m in TOKEN.finditer(b)]
        if not toks:
            break
        i = r.randrange(len(toks))
        s, e = toks[i]
        t = b[s:e]
        k = r.random()
        if k < 0.2:
            b = b[:s] + b[e:]
        elif k < 0.35:
            b = b[:e] + b" " + t + b[e:]
        elif k < 0.6:
            b = b[:s] + r.choice(INSERTS) + b[e:]
        elif k < 0.75:
            b = b[:s] + b" " + r.choice(INSERTS) + b" " + b[s:]
        elif k < 0.88:
            names = [b[x:y] for x, y in toks if (b[x:y][:1].isalpha() or b[x:y][:1] == b"_")]
            if names and (t[:1].isalpha() or t[:1] == b"_"):
                b = b[:s] + r.choice(names) + b[e:]
        elif k < 0.94:
            lines = b.split(b"\n")
            j = r.randrange(len(lines))
            if r.random() < 0.5:
                del lines[j]
            else:
                lines.insert(r.randrange(len(lines) + 1), lines[j])
            b = b"\n".join(lines)
        else:
            j = r.randrange(len(toks))
            s2, e2 = toks[j]
            if e <= s2:
                b = b[:s] + b[s2:e2] + b[e:s2] + t + b[e2:]
    return b.decode("latin1")


PRE = ["const CN = 4\nvar gv = 1\nvar ga = [1]\nfunction foo(x)\n  return x\nend\nfunction bar()\nend\n"]
# statements of main (second: at file level) that may or may not be allowed
RULES = [
    "CN = 1", "CN += 1", "foo = 1", "foo += 1", "abs = 1", "bar()", "bar(1)", "foo()", "foo(1)", "foo(1, 2)", "abs()",
    "abs(1)", "abs(1, 2)", "min(1)", "min(1, 2)", "emit()", "emit(1, 2, 3, 4)", "out()", "nosuch()", "nosuch = 1",
    "out(nosuch)", "var gv = 2", "var CN = 2", "var foo = 2", "var abs = 2", "var main = 1", "var ga", "var a = a",
    "var a = 1\n  var a = 2", "if (1)\n    var a = 1\n  end\n  out(a)", "if (1)\n    var a = 1\n  else\n    out(a)\n  end",
    "if (1)\n    var a = 1\n  else\n    var a = 2\n  end", "if (1)\n    var a = 1\n  end\n  var a = 2",
    "var a = 1\n  if (1)\n    var a = 2\n  end", "while (0)\n    var b = 1\n  end\n  b = 1",
    "var i\n  for (i = 0 to 3)\n    var q = 1\n  end\n  out(q)", "for (nosuch = 0 to 3)\n  end", "for (gv = 0 to 3)\n  end",
    "for (CN = 0 to 3)\n  end", "for (foo = 0 to 3)\n  end", "out(gv.length)", "out(ga.length)", "out(CN.length)",
    "out(foo.length)", "gv.x = 1", "CN.x = 1", "foo.x = 1", "nosuch.x = 1", "ga[0] = 1", "CN[0] = 1", "foo[0] = 1",
    "nosuch[0] = 1", "abs[0] = 1", "out(CN[0])", "out(foo[0])", "out(ga[0][0])", "gv()", "gv(1)", "ga[0]()", "CN()",
    "out(CN(1))", "1", "gv", "1 + 2", "return", "return 1", "return\n  return 2", "return foo", "return nosuch",
    "var f = foo\n  f()\n  f(1)\n  f(1, 2)", "out(foo(foo))", "out(main)", "var x = main()", "none = 1", "out(none())",
    "out(1)(2)", "out(foo(1)(2))", "foo(1)[0] = 2", "foo(1).x = 2", "[1][0] = 2", "out([1][0])", 'out("s"[0])', 'out("s".x)',
    "out([1].length)", "out(7 / 0)", "out(7 % 0)", "out(7.0 / 0)", "out(gv / 0)", "out(CN / 0)", "out(CN / (CN - 4))",
    "if (1 / 0)\n  end", "while (1 % 0)\n  end", "out(0 / 0 + nosuch)", "var function = 1", "var 1 = 1", "var x 1",
    "x = 1\n  var x", "var x =", "out(,)", "out(1,)", "out(1 2)", "if 1\n  end", "if (1\n  end", "if ()\n  end", "while ()\n  end",
    "if (1) out(1)\n  end", "if (1)\n    out(1)", "else", "end", "end\nend", "if (1)\n  else\n  else\n  end",
    "for (gv = 0)\n  end", "for (gv 0 to 3)\n  end", "for (gv = 0 to)\n  end", "for (0 to 3)\n  end", "for gv = 0 to 3\n  end",
    "function inner()\n  end", "const LC = 1", "const LC = 1\n  out(LC)", "import \"x\"", "var a, b", "var a = 1, b = 2",
    "gv == 1", "gv + 1", "gv +", "out(+1)", "out(1 +)", "out((1)", "out(1))", "out([1)", "out(1])", "out([])", "out([,])",
    "out([1,])", "out(not)", "out(-)", "out(and 1)", "gv = ", "gv = = 1", "gv =+ 1", "gv =- 1", "gv++", "gv + = 1",
    "gv *= 2", "gv /= 2", "gv %= 2", "ga[0] += 1", "ga[] = 1", "ga[0 = 1", "out(ga[])", "ga.length = 3", "ga. = 1", "ga.1 = 1",
    "out(ga.)", "out(.5)", "out(5.)", "out(1.2.3)", "out(1x)", "out(0x10)", "out(1e5)", 'out("a" "b")', 'out("unfinished)',
    "out('a')", "@", "$x = 1", "out(a.b.c)", "gv.x.y = 1", "gv.x[0] = 1", "gv.x()", "out(gv.x())", "vars()", "out(vars)",
    "new_thread()", "new_thread(foo)", "wait()", "wait(1, 2)", "out(1);", "{ }", "return return", "out(return)", "out(var x)",
    "if (1) end", "if (1)\n end end", "out(1) out(2)", "var x = 1 var y = 2", "gv = 1 gv = 2", "return 1 2",
]
FILE_RULES = [
    "var a = 1\nvar a = 2", "var a = 1\nconst a = 2", "const a = 1\nconst a = 1", "var a\nfunction a()\nend",
    "function a()\nend\nfunction a()\nend", "function a()\nend\nvar a", "function a(x, x)\nend", "function a(x)\n  var x\nend",
    "function a(a)\nend", "function a()\n  var a\nend", "function a(b)\nend\nvar b", "var b\nfunction a(b)\nend",
    "const b = 1\nfunction a(b)\nend", "function a(x, y, x)\nend", "function out()\nend", "var out = 1", "const out = 1",
    "function main()\nend", "var main = 1", "const a = b\nconst b = 1", "const a = b\nconst b = a", "const a = a", "const a",
    "const a =", "const a = none", "const a = 1.5", "const a = -1.5\nvar z = a", "const a = -1.5", 'const a = "s"', 'const a = "s" + "t"', 'const a = "s" + "t"\nvar z = a',
    "const a = foo", "const a = foo(1)", "const a = abs", "const a = [1]", "const a = gv", "const a = 1 / 0", "const a = 1 % 0",
    "const a = 4 / 2", "const a = CN + 1", "const a = nosuch", "const a = 1.5 + 1", "const a = 1 + none", "var a = b\nvar b = 1",
    "var a = a", "var a = nosuch", "var a = foo(1)", "var a = foo()", "var a = main()", "var a = CN", "var a = [gv, CN]",
    "var a = out(5)", "1", "out(1)", "gv = 1", "if (1)\nend", "return", "end", "function", "function a", "function a(", "function a()",
    "function ()\nend", "function a(1)\nend", "function a(x y)\nend", "function a(x,)\nend", "function a(,)\nend", "function a)\nend",
    "function if()\nend", "function a() end", "function a() return 1 end", "function a()\nreturn 1\nend end", "var", "var 1", "var a b",
    "var a = 1 var b = 2", "var if = 1", "const if = 1", "const 1 = 1", "import", "import 1", "import x", 'import "nosuch.nano"',
    "@", "$", '"', "(", ")", "var a = (1", "var a = 1)", "var a = -b\nvar b", "var a = 1 / 0", "var a = not nosuch", "# just a comment",
    "var a = 1 # trailing", "\r\n\t", "function a()\n\n\n# x\n\nend", "function a()\n  function b()\n  end\nend", "const a = -1\nvar z = a",
    "const a = not 1\nvar z = a", "const a = (1)\nvar z = a", "const a = 1 < 2\nvar z = a", "const a = CN and 0\nvar z = a",
]


def rule_cases(r):
    out = []
    for s in RULES:
        out.append(PRE[0] + "function main()\n  var loc = 3\n  %s\n  out(loc)\nend\n" % s)
        out.append("function main()\n  %s\nend\n" % s + PRE[0])
        out.append(PRE[0] + "function main()\n  if (gv)\n    %s\n  else\n    out(2)\n  end\n  while (0)\n  end\nend\n" % s.replace("\n", "\n  "))
    for s in FILE_RULES:
        out.append(PRE[0] + s + "\nfunction main()\nend\n")
        out.append("function main()\nend\n" + PRE[0] + s + "\n")
        out.append(s + "\n" + PRE[0] + "function main()\n  out(1)\nend")
    return out


def scope_texts(depth, r=None, n=None):
    """a name declared in one block and declared, used or set in another, for every pair of places in a nest of blocks"""
    heads = ["if (gv)", "while (gv)", "for (it = 0 to 2)", "if (gv)\n%selse"]
    out = []
    for d in range(1, depth + 1):
        for i in range(2 * d + 2):
            for j in range(2 * d + 2):
                for k, second in enumerate(("var nm", "out(nm)", "nm = 1", "for (nm = 0 to 1)\nend", "nm[0] = 1", "nm()")):
                    out.append((d, i, j, k, second))
    if n is not None and len(out) > n:
        out = r.sample(out, n)
    texts = []
    for d, i, j, k, second in out:
        # places: 0..d before the inner block of each level, d+1..2d+1 after it, outermost last
        put = {}
        for place, s in ((i, "var nm = 1"), (j, second)):
            put.setdefault(place, []).append(s)
        t = ["var gv = 0", "function main()", "  var it"]
        for lv in range(d + 1):
            ind = "  " * (lv + 1)
            if lv:
                h = heads[(lv + i + j + k) % 4 if d < 4 else (lv * 7 + i * 3 + j) % 4]
                t.append(ind[2:] + (h % ind[2:] if "%" in h else h))
            t += [ind + x for x in put.get(lv, [])]
        for lv in range(d, -1, -1):
            ind = "  " * (lv + 1)
            t += [ind + x for x in put.get(d + 1 + (d - lv), [])]
            t.append(ind[2:] + "end")
        texts.append("\n".join(t) + "\n")
    return texts


def scope_soup(r):
    """blocks, declarations and uses of a few names, nearly all of them right"""
    names = ["a", "b", "c", "d"]
    t = ["var gv = 1", "function f(p)"]
    wrong = r.random() < 0.8
    total = r.randint(6, 30)
    scopes = [{"gv", "f", "main"}, {"p"}]
    bad_at = r.randrange(total) if wrong else -1
    for k in range(total):
        ind = "  " * (len(scopes) - 1)
        vis = set().union(*scopes)
        free = [x for x in names if x not in vis]
        seen = [x for x in names if x in vis] + ["p", "gv"]
        x = r.random()
        if k == bad_at:
            y = r.random()
            if y < 0.5 and len(seen) > 2:
                t.append(ind + "var " + r.choice(seen[:-1] if r.random() < 0.9 else seen))
            elif free:
                nm = r.choice(free)
                t.append(ind + r.choice(["out(%s)", "%s = 1", "%s += 1", "var z%d = %%s" % k, "%s[0] = 1", "if (%s)\nend", "while (%s)\nend", "for (%s = 0 to 1)\nend"]) % nm)
        elif x < 0.3 and free:
            nm = r.choice(free)
            t.append(ind + "var %s = %s" % (nm, r.choice(seen + ["1"])))
            scopes[-1].add(nm)
        elif x < 0.45:
            t.append(ind + r.choice(["out(%s)", "%s = 1", "%s += 2"]) % r.choice(seen))
        elif x < 0.72 and len(scopes) < 8:
            t.append(ind + r.choice(["if (gv)", "while (gv)", "for (p = 0 to 1)"]))
            scopes.append(set())
        elif len(scopes) > 2:
            scopes.pop()
            t.append(ind[2:] + "end")
    while len(scopes) > 1:
        t.append("  " * (len(scopes) - 2) + "end")
        scopes.pop()
    return "\n".join(t) + "\nfunction main()\n  return f(1)\nend\n"


def small_program(r, **kw):
    a = dict(funcs=(0, 2), globs=(0, 2), consts=(0, 2), stmts=(1, 3), nest=2, depth=2)
    a.update(kw)
    return gen.program(r, **a)


@prop
def C05(ck):
    r = ck.rng("rules")
    ck.traces_stage("scope and syntax rules", [Case(t, [], opt=o, flags=FL_NORUN, what="static rules")
                                               for t in rule_cases(r) for o in (0, 1)])
    # every function called with every number of arguments
    fns = [("abs", 1), ("min", 2), ("max", 2), ("bitand", 2), ("sin", 1), ("cos", 1), ("tan", 1), ("len", 1), ("chr", 1), ("round", 1), ("ceil", 1), ("floor", 1), ("sqrt", 1),
           ("new_thread", -1), ("wait", 1), ("new_array", 1), ("out", 1), ("emit", -1), ("id", 1), ("mk", 1), ("fail", 1), ("halt", 0), ("vars", 0), ("get", 1), ("junk", 1), ("nores", 1), ("nest", -1),
           ("u0", 0), ("u1", 1), ("u2", 2), ("u3", 3), ("main", 0)]
    users = "function u0()\nend\nfunction u1(a)\nend\nfunction u2(a, b)\nend\nfunction u3(a, b, c)\nend\n"
    around = ["  %s\n", "  return %s\n", "  var v = 1 + %s\n", "  if (1)\n    g = %s\n  end\n", "  g[%s] = 1\n", "  u1(%s)\n", "  while (%s)\n    g = 1\n  end\n"]
    texts = []
    for f, n in fns:
        for k in range(5):
            e = "%s(%s)" % (f, ", ".join(["1", "g", "\"s\"", "2.5", "u0"][:k]))
            for a in around if n == 0 or k == 0 else r.sample(around, 2):
                body = "var g\nfunction main()\n" + a % e + "end\n"
                texts.append(users + body if r.random() < 0.5 else body + users)
    ck.traces_stage("numbers of arguments", [Case(t, [], opt=k % 2, flags=FL_NORUN, what="numbers of arguments") for k, t in enumerate(texts)])
    scripts = [b for f, b in repo_scripts("tests/xpass", "tests/xfail", "examples/misc", "examples/snake", "tests/regression") if len(b) < 5000]
    cases = []
    for b in scripts:
        t = for_test_host(b)
        cases += [Case(m, [], opt=k % 2, flags=FL_NORUN, what="script") for k, m in enumerate([t, t] + [mutate(r, t, r.choice([1, 1, 2])) for _ in range(ck.n(3, 30))])]
    if cases:
        ck.traces_stage("scripts of the repository", cases)
    scopes = scope_texts(7, r, ck.n(1800, None)) + [scope_soup(r) for _ in range(ck.n(1200, 12000))]
    ck.traces_stage("names in nested blocks", [Case(t, [], opt=k % 2, flags=FL_NORUN, what="names in nested blocks") for k, t in enumerate(scopes)])
    places = shapes.place_texts(r, ck.n(1500, 20000))
    if not ck.thorough:
        places = r.sample(places[:-1500], 4500) + places[-1500:]
    ck.traces_stage("expressions in every place", [Case(t, [], opt=k % 2, flags=FL_NORUN, what="expressions in every place") for k, t in enumerate(places)])

    def stage(k):
        r = ck.rng("mutants", k)
        cases = []
        for i in range(ck.n(1800, 5000)):
            t, g = small_program(r)
            m = mutate(r, t, r.choice([1, 1, 1, 2, 3]))
            cases.append(Case(m, [], opt=r.randint(0, 1), flags=FL_NORUN, what="changed program"))
        for i in range(ck.n(150, 400)):
            t, g = gen.program(r, layout=0.2, blank=0.2)
            cases.append(Case(mutate(r, t, 1), [], opt=r.randint(0, 1), flags=FL_NORUN, what="changed long program"))
        ck.traces_stage("changed programs %d" % k, cases)
    rounds(ck, 600, stage)


# ---------------------------------------------------------------------- C06
def raw_text(r):
    """bytes that are mostly not a program"""
    k = r.randrange(9)
    if k == 0:
        return bytes(r.randrange(1, 256) for _ in range(r.choice([0, 1, 2, 3, 8, 30, 200])))
    if k == 1:
        return bytes(r.choice(b"()[]{}.,=+-*/%<>!\"#\n\r\t abc019_") for _ in range(r.choice([1, 2, 5, 20, 100, 300])))
    if k == 2:
        return b" ".join(r.choice(INSERTS) for _ in range(r.choice([1, 3, 10, 50, 150])))
    t = small_program(r, tricky=0.5, layout=0.2)[0]
    b = bytearray(t.encode("latin1"))
    if k == 3:
        return bytes(b[:r.randrange(len(b) + 1)])
    if k == 4:
        return bytes(b[r.randrange(len(b) + 1):])
    if k == 5:
        for _ in range(r.choice([1, 1, 2, 4])):
            b[r.randrange(len(b))] = r.choice([r.randrange(1, 256), ord('"'), ord("#"), ord("("), 10])
        return bytes(b)
    if k == 6:
        return mutate(r, t, r.choice([2, 4, 8])).encode("latin1")
    if k == 7:
        i = r.randrange(len(b) + 1)
        return bytes(b[:i]) + bytes(r.choice(INSERTS + [b"\xff", b"\x01", b"\x80\x81", b"\r", b"\n\n"])) + bytes(b[i:])
    j, i = sorted((r.randrange(len(b) + 1), r.randrange(len(b) + 1)))
    return bytes(b[:j] + b[i:]) + bytes(b[j:i])


def extreme_texts():
    big = []
    for n in (31, 32, 63, 64, 127, 128, 255, 256, 257, 511, 512, 1023, 1024, 1025, 4096, 70000):
        big.append("var " + "a" * n + " = 1\nfunction main()\n  return " + "a" * n + "\nend\n")
        big.append('function main()\n  return "' + "s" * n + '"\nend\n')
        big.append('function main()\n  return "' + "s" * n)
        big.append("function main()\n  return " + "9" * n + "\nend\n")
        big.append("function main()\n  return 1." + "3" * n + "\nend\n")
        big.append("#" + "c" * n)
        big.append(" " * n + "var x = 1")
        big.append("\n" * n + "@")
        big.append("\n" * n + "function main()\nend")
        big.append("a" * n)
        big.append("nosuch" * n + "(1)")
        big.append("function main()\n  " + "z" * n + "()\nend\n")
        big.append("function main()\n  var x = " + "z" * n + ".y\nend\n")
        big.append('import "' + "p" * n + '"\n')
        big.append("function f(" + ", ".join("a%d" % i for i in range(min(n, 2000))) + ")\nend\n")
        big.append("function main()\n  emit(" + ", ".join("1" for i in range(min(n, 5000))) + ")\nend\n")
        big.append("var a = [" + ", ".join("1" for i in range(min(n, 5000))) + "]\n")
    for n in (100, 2000, 5000, 20000):
        big += ["function main()\n  return %s1%s\nend\n" % (a * n, b * n)
                for a, b in (("(", ")"), ("-", ""), ("not ", ""), ("[", "]"), ("abs(", ")"), ("(", ""), ("", ")"), ("1+", ""),
                             ("1*(1+", ")"), ("f[", "]"), ("", "[0]"), ("", "(0)"), ("1<", ""), ("[1,", "]"))]
        big.append("function main()\n" + "if (1)\n" * n + "end\n" * n + "end\n")
        big.append("function main()\n" + "while (0)\n" * n + "end\n" * n + "end\n")
        big.append("function main()\n" + "if (1)\nelse\n" * n)
        big.append("function main()\nvar i\n" + "for (i = 0 to 1)\n" * n + "end\n" * (n + 1))
    big += ["", "\n", "#", '"', '"\n', "'", "\\", "\\n", "function", "function main", "function main(", "function main()", "var", "const",
            "import", 'import ""', 'import "', "end", "\r", "\t", "\xef\xbb\xbfvar a", "var a = \xe4", '"\xe4"', "0x", "1.", ".1", "1..2", "1.2.3", "@init()",
            "function @init()\nend", "var @init", "function main()\n  @init()\nend", "-", "- -", "a.", "a.b", "a.b.c = 1"]
    return big


@prop
def C06(ck):
    r = ck.rng("extreme")
    ck.traces_stage("extreme texts", [Case(t, [], opt=i % 2, flags=FL_NORUN | FL_TWICE, mode="any", limit=40, what="extreme text")
                                      for i, t in enumerate(extreme_texts())], variant="asan")
    # every prefix of some programs
    pre = []
    for i in range(ck.n(6, 40)):
        b = small_program(r, tricky=0.4)[0].encode("latin1")[:600]
        pre += [Case(b[:j].decode("latin1"), [], opt=i % 2, flags=FL_NORUN | FL_TWICE, mode="src", what="every prefix")
                for j in range(len(b) + 1)]
    ck.traces_stage("every prefix", pre, variant="asan")

    def stage(k):
        r = ck.rng("bytes", k)
        cases = []
        for i in range(ck.n(2500, 6000)):
            t = raw_text(r)
            files = None
            fl = FL_NORUN | FL_TWICE
            if r.random() < 0.1:
                t = t.replace(b"\x01", b"\0") + bytes([r.choice([0, 255, 26, 10])])
                files, fl = [(b"m.nano", t)], fl | FL_FILES
            c = Case(t, [], opt=r.randint(0, 1), flags=fl, files=files,
                     mode="src" if r.random() < 0.5 and files is None else "any", what="arbitrary bytes")
            cases.append(c)
        ck.traces_stage("arbitrary bytes %d" % k, cases, variant="asan")
        # what is accepted must also run safely
        cases = []
        for i in range(ck.n(500, 1500)):
            t, g = small_program(r)
            cases.append(Case(mutate(r, t, 1), [INIT, call("main")], opt=r.randint(0, 1), flags=FL_TWICE, what="changed program, run"))
        ck.traces_stage("changed programs run %d" % k, cases, variant="asan")
    rounds(ck, 600, stage)


# ---------------------------------------------------------------------- C07, C09
# statements over three array variables: all sequences of them are explored
HEAP_ALPHABET = [
    "a = [0, b]", "b = [a, c]", "c = new_array(2)", "a[0] = b", "b[1] = a", "c[0] = c", "a = c[0]", "c = a", "b = none",
    "a[1] = [a, a]", "b = [\"s\" + 1, 2.5]", "g = a", "c = g", "a[0] = \"t\" + 2", "b = hold(a)", "new_thread(other, c)",
    "c[1] = b[0]", "b[0] = abs"]
HEAP_SHOW = "  emit(a, b, c, g)\n"


def heap_sequences(r, quick, k_all, k_rand):
    import itertools
    n = len(HEAP_ALPHABET)
    seqs = list(itertools.product(range(n), repeat=2))
    if k_all >= 3:
        seqs += list(itertools.product(range(n), repeat=3))
    for _ in range(quick):
        seqs.append(tuple(r.randrange(n) for _ in range(k_rand)))
    return seqs


def heap_case(seqs, mode_ops, what, opt, **kw):
    """one function per sequence; every array error ends its own thread"""
    t = ["var g\nfunction hold(x)\n  var y = [x]\n  var z = y\n  return z\nend\nfunction other(x)\n  g = x\n  emit(x, g)\n  return x\nend\n"]
    ops = [INIT]
    tid = 1
    for i, s in enumerate(seqs):
        t.append("function t%d()\n  var a = [1, 2]\n  var b = a\n  var c = [a, \"e\"]\n  g = none\n" % i +
                 "".join("  %s\n" % HEAP_ALPHABET[x] for x in s) + HEAP_SHOW + "end\n")
        ops += mode_ops(i)
    return Case("".join(t), ops, opt=opt, what=what, dump=0, **kw)


GC_PROGRAMS = [
    # a long list, walked after many collections
    ("function main()\n  var l = none\n  var i\n  for (i = 0 to 1500)\n    l = [i, l]\n  end\n  junk(999)\n  junk(999)\n  junk(999)\n"
     "  junk(999)\n  junk(999)\n  junk(999)\n  junk(999)\n  junk(999)\n  junk(999)\n  junk(999)\n  junk(999)\n  junk(999)\n"
     "  var s = 0\n  while (not (l == none))\n    s += l[0]\n    l = l[1]\n  end\n  return s\nend\n"),
    # a ring
    ("function main()\n  var first = [0, none]\n  var last = first\n  var i\n  for (i = 1 to 300)\n    var x = [i, none]\n    last[1] = x\n"
     "    last = x\n  end\n  last[1] = first\n  for (i = 0 to 40)\n    junk(999)\n  end\n  var s = 0\n  var p = first\n  for (i = 0 to 900)\n"
     "    s += p[0]\n    p = p[1]\n  end\n  out(p == none)\n  return s\nend\n"),
    # a table shared by many
    ("var t\nfunction fill(d, shared)\n  if (d == 0)\n    return shared\n  end\n  return [fill(d - 1, shared), fill(d - 1, shared), d]\nend\n"
     "function leaf(x, d)\n  if (d == 0)\n    return x\n  end\n  return leaf(x[1 - (d - (d / 2) * 2)], d - 1)\nend\n"
     "function main()\n  var s = [\"shared\", 0]\n  t = fill(6, s)\n  var i\n  for (i = 0 to 30)\n    junk(999)\n    s[1] = s[1] + 1\n"
     "    out(leaf(t, 6))\n  end\n  return t\nend\n"),
    # temporaries that live across calls that collect
    ("function j(x)\n  junk(999)\n  junk(999)\n  junk(999)\n  junk(999)\n  junk(999)\n  return x\nend\n"
     "function main()\n  var i\n  for (i = 0 to 8)\n    emit(\"a\" + i, j([i, \"b\" + i]), j(1.5 * i), j(\"c\") + j(\"d\"), [j(1), j(2), j([3])])\n"
     "    out((j(1) + j(2)) * (j(3) - j(4)))\n    out(j(abs))\n    out(j(j)(\"k\"))\n  end\nend\n"),
    # arrays of every kind of value
    ("function f()\nend\nvar g = [1, 2.5, \"s\", none, [9], f, abs, -1, \"\"]\nfunction main()\n  var c = new_array(9)\n  var i\n"
     "  for (i = 0 to 9)\n    c[i] = g[i]\n    junk(999)\n    junk(999)\n  end\n  out(c)\n  out(g)\n  var c4 = c[4]\n  c4[0] = c\n  junk(999)\n  junk(999)\n  junk(999)\n"
     "  junk(999)\n  junk(999)\n  junk(999)\n  junk(999)\n  junk(999)\n  junk(999)\n  junk(999)\n  junk(999)\n  junk(999)\n  out(c)\n  out(g)\nend\n"),
    # large blocks
    ("function main()\n  var a = new_array(3000)\n  var b = new_array(2000)\n  var i\n  for (i = 0 to 60)\n    a[i * 50] = \"v\" + i\n"
     "    b[i * 33] = a\n    junk(999)\n  end\n  a[2999] = b\n  for (i = 0 to 20)\n    junk(999)\n  end\n  var n = 0\n  for (i = 0 to 60)\n"
     "    n += len(b[i * 33][i * 50])\n  end\n  out(n)\n  return a[2999][0][50]\nend\n"),
]


def many_globals(n, step=1):
    """n globals that hold fresh values through collections"""
    return ("".join("var v%d\n" % i for i in range(n)) + "function fill()\n" +
            "".join("  v%d = %s\n" % (i, ("\"s\" + %d" % i, "[%d, \"e\" + %d]" % (i, i), "%d + v0" % i if i > 2 else "7", "%d.5 * 2" % i)[(i + i // 4) % 4 if i > 2 else 2])
                    for i in range(0, n, step)) +
            "end\nfunction show()\n" + "".join("  out(v%d)\n" % i for i in range(0, n, step)) + "end\n"
            "function main()\n  fill()\n  var i\n  for (i = 0 to 30)\n    junk(999)\n  end\n  show()\nend\n")


def deep_nest(n):
    return ("function main()\n  var a = [0]\n  var top = a\n  var i\n  for (i = 0 to %d)\n    var b = [a]\n    a = b\n  end\n"
            "  for (i = 0 to 40)\n    junk(999)\n  end\n  var d = 0\n  while (len(a) == 1 and not (a[0] == 0))\n    a = a[0]\n    d += 1\n  end\n"
            "  top[0] = 5\n  out(a)\n  return d\nend\n" % n)


def thread_mix(r, n, junk=True):
    """several threads stepped one instruction at a time in any order"""
    out = []
    for _ in range(n):
        t, g = gen.program(r, arr=2.5, junk=0.2, globs=(1, 4), setg=2)
        fs = [f for f in g.fns if not f.args] + [g.main]
        ops = [INIT]
        ids = []
        for k in range(r.randint(2, 4)):
            ops.append(spawn(r.choice(fs).name))
            ids.append(k + 2)
        for _ in range(r.choice([40, 120, 250])):
            x = r.choice(ids)
            ops.append(op(r.choice([6, 6, 6, 7]), t=x) if r.random() < 0.9 else op(5, t=x, n=r.randint(1, 9)))
        for x in ids:
            ops.append(op(r.choice([15, 16, 17]), t=x, n=r.choice([1, 3, 1000])))
        out.append(Case(t, ops, opt=r.randint(0, 1), flags=FL_PROGRAM | (FL_JUNK if junk else 0), dump=r.choice([0, 1, 2]), mode="code",
                        what="threads stepped in turn"))
    return out


SLEEPERS = [
    "function w(k)\n  var a = [k, \"s\" + k]\n  var s = \"str\" + k\n  var f = 1.5 * k\n  wait(2)\n  emit(a, s, f, k)\n  a[0] = a\n  wait(1)\n"
    "  emit(a, s, f)\n  wait(3)\n  return a\nend\nfunction main()\n  var x = [\"main\", [1, 2]]\n  new_thread(w, 1)\n  new_thread(w, 2)\n"
    "  new_thread(w, 3)\n  wait(1)\n  out(x)\n  new_thread(w, 4)\n  wait(2)\n  out(x)\n  return x\nend\n",
    "var g = [0, \"g\"]\nfunction w(k, a)\n  var l = [a, a, k]\n  emit(\"in\", wait(k), l, [k, wait(1), a])\n  a[0] = k\n  emit(l, \"t\" + k + wait(2), g)\nend\n"
    "function main()\n  var s = [7, \"shared\"]\n  new_thread(w, 1, s)\n  new_thread(w, 2, s)\n  new_thread(w, 0, g)\n  s[1] = \"new\" + s[0]\n  wait(4)\n  out(s)\n  halt()\n"
    "  emit(s, g)\nend\n",
    "function w(a)\n  var x = \"x\" + a\n  halt()\n  out(x)\n  halt()\n  var y = [x, a]\n  wait(1)\n  halt()\n  out(y)\n  return y[5]\nend\nfunction main()\n"
    "  new_thread(w, \"one\" + 1)\n  new_thread(w, 2.5)\n  var l = none\n  var i\n  for (i = 0 to 5)\n    l = [i, l]\n    wait(1)\n  end\n  out(l)\nend\n",
]
CHURN = "function churn()\n  junk(60)\n  return [1, \"c\"]\nend\n"


def sleeping(r, n):
    """threads that sleep, are halted, have ended or failed while others collect"""
    out = []
    churn = [call("churn")] * 3
    for t in SLEEPERS:
        for o in (0, 1):
            for b in (1, 3, 10, 100000):
                ops = [INIT, spawn("main")]
                for _ in range(14 if b > 5 else 40):
                    ops += [op(4, n=b)] + churn
                out.append(Case(t + CHURN, ops, opt=o, flags=FL_PROGRAM | FL_JUNK, mode="code", dump=2, what="threads asleep during collections"))
    for _ in range(n):
        t, g = gen.program(r, arr=2.5, strs=1.5, threads=2.0, halts=0.3, fails=0.02, globs=(1, 4), setg=2, budget=300, odd=r.choice([0, 0, 0.02]))
        ops = [INIT, spawn("main")]
        for x in host_script(r, r.choice([8, 20]), 6, g.fns, calls=0.1) + [op(18, n=r.choice([1, 9, 1000]))]:
            ops += [x] + churn[:r.choice([0, 2, 3, 3])]
        out.append(Case(t + CHURN, ops, opt=r.randint(0, 1), flags=FL_PROGRAM | FL_JUNK, mode="code", dump=r.choice([1, 2]),
                        what="threads paused during collections"))
    return out


@prop
def C07(ck):
    r = ck.rng("heap")
    # all short heap programs, a collection and fresh garbage before every instruction
    seqs = heap_sequences(r, ck.n(1000, 12000), ck.n(2, 3), 6)
    cases = []
    for k, part in enumerate(chunks(seqs, 30)):
        cases.append(heap_case(part, lambda i: [spawn("t%d" % i), op(16)], "all heap operations, collecting every instruction", k % 2, flags=FL_JUNK))
    ck.traces_stage("heap operations", cases)
    long = []
    for p in GC_PROGRAMS + [deep_nest(1500), deep_nest(3000), many_globals(70), many_globals(300), many_globals(1100, 9)]:
        for o in (0, 1):
            long.append(Case(p, [INIT, call("main"), call("main")], opt=o, what="collections during a run"))
            long.append(Case(p, [INIT, spawn("main"), op(18, n=97)], opt=o, what="collections during a run", flags=FL_JUNK))
        if "3000" not in p:
            long.append(Case(p, [INIT, spawn("main"), op(17, t=2)], what="collections during a run", flags=FL_JUNK))
    ck.traces_stage("long programs", long)
    ck.traces_stage("long programs, checked memory", [Case(p, [INIT, call("main")], limit=60, what="collections during a run")
                                                      for p in GC_PROGRAMS[:5]], variant="asan")

    def stage(k):
        r = ck.rng("random", k)
        cases = []
        for i in range(ck.n(260, 600)):
            t, g = gen.program(r, arr=3, strs=1.5, fun=1, globs=(1, 5), junk=0.3)
            ops = [INIT, spawn("main"), op(16, t=2)] + [x for c in host_calls(r, g) for x in (c,)]
            cases.append(Case(t, ops, opt=r.randint(0, 1), flags=FL_JUNK, what="a collection before every instruction"))
        for i in range(ck.n(120, 300)):
            t, g = gen.program(r, arr=3, strs=1.5, fun=1, globs=(1, 5), junk=3, budget=800)
            cases.append(Case(t, [INIT, call("main"), call("main")], opt=r.randint(0, 1), what="collections at random places"))
        cases += thread_mix(r, ck.n(60, 150))
        cases += sleeping(r, ck.n(60, 200))
        for i in range(ck.n(60, 150)):
            t, g = gen.program(r, arr=2.5, junk=2, threads=1.2, globs=(1, 4))
            cases.append(Case(t, [INIT, spawn("main"), op(18, n=r.choice([1, 2, 7, 40, 1000]))], opt=r.randint(0, 1), dump=0,
                              flags=FL_JUNK | FL_PROGRAM, mode="code", what="threads and collections"))
        ck.traces_stage("random programs %d" % k, cases)
    rounds(ck, 600, stage)


def index_cases():
    conts = ["[1, 2, 3]", "new_array(3)", "mk(4)", '"abc"', '""', "none", "5", "2.5", "foo", "abs", "arr", "str", "nested[0]", "nested"]
    idx = ["0", "1", "2", "3", "-1", "-3", "2147483647", "(-2147483647 - 1)", "1.0", "0.5", '"0"', "none", "foo", "arr", "abs",
           "255", "256", "-256", "1 - 1", "65536", "536870912", "1073741824", "(-1073741824)"]
    defs = ('var arr = [10, 20, 30]\nvar str = "hello"\nvar nested = [[1, 2], [3]]\nvar z\nfunction foo()\n  return 5\nend\n'
            "function state()\n  emit(arr, str, nested, z)\nend\n")
    gets = ["%s[%s]" % (("(" + c + ")") if c[0] == "n" and c != "nested" and "(" in c else c, i) for c in conts for i in idx]
    sets = []
    for c in ["arr", "str", "nested", "z", "nested[0]"]:
        for i in idx:
            for v in ("7", '"v"', "arr", "none"):
                if "[" in c:
                    sets.append("  z = %s\n  z[%s] = %s\n" % (c, i, v))
                else:
                    sets.append("  %s[%s] = %s\n" % (c, i, v))
    sizes = ["new_array(%s)" % x for x in ("0", "-1", "1", "2", "255", "256", "3.7", "0.5", "-0.5", '"3"', "none", "arr", "foo", "1.0", "5000")]
    return defs, gets, sets, sizes


@prop
def C09(ck):
    r = ck.rng("index")
    defs, gets, sets, sizes = index_cases()
    cases = []
    for k, es in enumerate(chunks(gets, 50)):
        cases.append(calls_case(defs, es, "reading elements", opt=k % 2, dump=0))
    for k, ss in enumerate(chunks(sets, 40)):
        t = defs + "".join("function t%d()\n%s  out(1)\nend\n" % (i, s) for i, s in enumerate(ss))
        ops = [INIT]
        for i in range(len(ss)):
            ops += [call("t%d" % i), call("state")]
        cases.append(Case(t, ops, opt=k % 2, what="writing elements", dump=0))
    cases.append(calls_case(defs, sizes + ["len(%s)" % s for s in sizes] + ["new_array(3)[%d]" % i for i in range(4)], "sizes", dump=0))
    high = "".join(chr(c) for c in range(1, 256) if c not in (10, 13, 34, 92))
    hs = ["get(0)[%d]" % i for i in list(range(len(high))) + [-1, len(high)]]
    for k, es in enumerate(chunks(hs, 130)):
        cases.append(calls_case(defs, es, "every byte of a string", inputs=[S(high)], opt=k % 2, dump=0))
    cases.append(calls_case(defs, ["chr(%d)[0]" % c for c in range(0, 256)], "every byte of a string", dump=0))
    cases.append(calls_case(defs, ['"a\xe4\xff\x80\x7fz"[%d]' % i for i in range(-1, 8)], "every byte of a string", dump=0))
    for n in (300, 40000, 70000):
        at = sorted({0, 1, 127, 128, 255, 256, 299, 32767, 32768, 39999, 65535, 65536, 69999, n - 1, n})
        body = ("var big = new_array(%d)\n" % n + "function at(i)\n  return big[i]\nend\nfunction put(i, v)\n  big[i] = v\n  return big[i]\nend\n"
                "function size()\n  return big.length + len(big)\nend\n")
        ops = [INIT, call("size")] + [call("put", I(i), I(i * 3 + 1)) for i in at] + [call("at", I(i)) for i in at + [-1, i + 1, 2, 300, n + 1, -n, 65536 * 5]]
        cases.append(Case(body, ops, dump=0, what="large arrays"))
    cases.append(calls_case(defs, ["arr.length", "nested.length", "len(nested[0])", "len(arr)", "str.length", "z.length"],
                            "lengths", dump=0))
    ck.traces_stage("every container and index", cases)
    seqs = heap_sequences(r, ck.n(1500, 12000), ck.n(2, 3), 7)
    cases = []
    for k, part in enumerate(chunks(seqs, 40)):
        cases.append(heap_case(part, lambda i: [call("t%d" % i)], "all heap operations", k % 2))
    cases += shapes.passed_arrays(r)
    ck.traces_stage("sharing between references", cases)

    def stage(k):
        r = ck.rng("random", k)
        cases = []
        for i in range(ck.n(450, 900)):
            t, g = gen.program(r, arr=5, strs=0.7, flt=0.5, fun=1, globs=(1, 4), call=1.2)
            cases.append(Case(t, [INIT, call("main")] + host_calls(r, g), opt=r.randint(0, 1), what="arrays"))
        for i in range(ck.n(80, 200)):
            t, g = gen.program(r, arr=4, threads=1.5, globs=(1, 3))
            cases.append(Case(t, [INIT, spawn("main"), op(18, n=r.choice([1, 3, 20, 1000]))], opt=r.randint(0, 1),
                              dump=0, flags=FL_PROGRAM, mode="code", what="arrays shared between threads"))
        for i in range(ck.n(40, 100)):
            t, g = gen.program(r, arr=4, odd=0.3, depth=2)
            cases.append(Case(t, [INIT, call("main")], opt=r.randint(0, 1), what="arrays of odd values"))
        ck.traces_stage("random programs %d" % k, cases)
    rounds(ck, 600, stage)


# ---------------------------------------------------------------------- C08
# loop bodies that leave garbage; x, y, z, keep are locals, g a global; what
# lives at the end does not depend on the number of rounds
GARBAGE = {
    "integers": "x = i * 2 + 1\nx = -x\nx += 3\n",
    "floats": "x = 1.5 * i\nx = x / 3.0\nx -= 1\n",
    "comparisons": "x = i < 5 and not (i == 2) or i >= 7\n",
    "strings": 'x = "a" + i\nx = x + "b" + 1.5\nx += none\n',
    "long strings": 'x = get(1) + i\nx = get(1) + get(1)\n',
    "host strings": "x = get(1)\nx = mk(3)\n",
    "arrays": "x = [i, 2, 3]\nx = [x, x]\n",
    "empty slots": "x = new_array(20)\nx[3] = i\n",
    "large arrays": "x = new_array(get(2))\nx[0] = i\n",
    "self cycle": "x = [0]\nx[0] = x\n",
    "two cycle": "x = [0]\ny = [x]\nx[0] = y\n",
    "ring": "x = [0, 0]\ny = [x, 1]\nz = [y, 2]\nx[0] = z\nx[1] = y\n",
    "nested": "x = [[[i], [i]], [[i]]]\n",
    "list dropped": "x = none\nfor (j = 0 to 10)\n  x = [j, x]\nend\n",
    "elements overwritten": 'keep[0] = "k" + i\nkeep[1] = [i]\nkeep[2] = 2.5 * i\nkeep[0] = keep[1]\n',
    "shared string": 'x = "q" + i\ny = [x, x, x]\nz = [y, y, x]\n',
    "calls": "x = id2([i, \"s\"], 1.5)\nid2(\"t\" + i, 2)\n",
    "deep calls": "x = down(20, \"d\" + i)\n",
    "call through variable": "x = fv([i], i)\ny = abs\nx = y(-5)\n",
    "host calls": "x = mk(4)\nid([i])\nemit2(x, [i], \"z\")\n",
    "builtins": "x = abs(-1.5) + min(i, 3) + len(\"abc\") + sqrt(4.0)\ny = chr(65)\n",
    "functions": "x = down\ny = abs\nx = [x, y]\n",
    "globals": "g = [i, g0]\ng = \"g\" + i\n",
    "blocks": "if (i == i)\n  var p = [i]\n  var q = \"q\" + i\nelse\n  var r = 1\nend\nvar s = [none]\n",
    "inner loops": "while (x == 0)\n  var w = [x]\n  x = 1\nend\nx = 0\nfor (j = 0 to 3)\n  var u = [j]\nend\n",
    "huge strings": "x = get(4)\nx = 0\nx = get(5) + get(5)\nx = len(x)\n",
    "huge arrays": "x = new_array(get(6))\nx[0] = i\nx = none\nx = [i]\n",
    "huge arguments": "x = id2(get(4), 1)\nx = 0\nkeep[1] = get(5)\nkeep[1] = 5\nx = len(get(4))\n",
    "keep two": "y = x\nx = [i, \"live\"]\n",
}
C08_DEFS = ("var g\nvar g0 = [1]\nvar fv = id2\nfunction id2(a, b)\n  var t = [a]\n  return t[0]\nend\n"
            "function emit2(a, b, c)\n  return none\nend\n"
            "function down(n, s)\n  if (n == 0)\n    return s\n  end\n  return down(n - 1, s)\nend\n"
            "function quit(a)\n  var l = [a, \"x\"]\n  return l\nend\n"
            "function sleepy(a)\n  var l = [a]\n  wait(2)\n  return l\nend\n"
            "function broken(a)\n  var l = [a, a]\n  var s = \"s\" + a\n  return l[9]\nend\n")


def garbage_program(body, hold=True):
    b = "".join("    %s\n" % l for l in body.rstrip("\n").split("\n"))
    return (C08_DEFS + "function main()\n  var i = 0\n  var j = 0\n  var x = 0\n  var y = 0\n  var z = 0\n"
            "  var keep = [1, \"two\", 3.5]\n  var hold = [keep, \"h\" + 1, [4, 5]]\n  var n = get(0)\n"
            "  out(\"begin\")\n  while (i < n)\n%s    i += 1\n  end\n"
            "  out(hold[1])\n  out(hold[2])\n  out(hold[0][0] == keep[0] or 1)\n  x = 0\n  return hold[2]\nend\n" % b)


LIVE_STRINGS = [
    # n live references to one long string, all the time
    ("deep recursion over a long string",
     "function down(n, s)\n  if (n == 0)\n    return len(s)\n  end\n  var t = s\n  return down(n - 1, t)\nend\n"
     "function main()\n  var s = get(1)\n  var i = 0\n  var n = get(0)\n  while (i < n)\n    if (not (down(get(3), s) == len(s)))\n      out(\"bad\")\n    end\n"
     "    i += 1\n  end\n  return \"done\"\nend\n"),
    ("a list grown and dropped",
     "var l\nfunction main()\n  var i = 0\n  var n = get(0)\n  while (i < n)\n    l = none\n    var j = 0\n    while (j < get(3))\n"
     "      l = [j, l]\n      j += 1\n    end\n    i += 1\n  end\n  return l == none\nend\n"),
    ("a window over a long history",
     "function main()\n  var w = new_array(16)\n  var i = 0\n  var n = get(0)\n  while (i < n)\n    w[i % 16] = [i, \"item\" + i, w[(i + 1) % 16] == none]\n"
     "    i += 1\n  end\n  return len(w)\nend\n"),
    ("threads with data of their own",
     "var n\nvar fin = [0, 0, 0, 0]\nfunction work(k)\n  var i = 0\n  var x = [k]\n  while (i < n)\n    x = [k, \"w\" + i]\n    i += 1\n  end\n"
     "  fin[k] = 1\nend\nfunction main()\n  n = get(0)\n  new_thread(work, 1)\n  new_thread(work, 2)\n  new_thread(work, 3)\n"
     "  work(0)\n  while (fin[0] + fin[1] + fin[2] + fin[3] < 4)\n    wait(1)\n  end\n  return fin\nend\n"),
    ("finished threads",
     "function main()\n  var i = 0\n  var n = get(0)\n  while (i < n)\n    new_thread(quit, [i])\n    new_thread(quit, \"s\" + i)\n"
     "    new_thread(sleepy, i)\n    wait(1)\n    i += 1\n  end\n  wait(3)\n  return \"end\"\nend\n"),
    ("thread results",
     "function main()\n  var i = 0\n  var n = get(0)\n  while (i < n)\n    new_thread(quit, get(1))\n    wait(2)\n    i += 1\n  end\n  return \"end\"\nend\n"),
]


def c08_modes(r, thorough, real_n):
    """ways to run main to its end: (ops, number of rounds of the real code)"""
    m = [([INIT, call("main")], real_n),
         ([INIT, spawn("main"), op(18, n=r.choice([1, 3, 50]))], real_n // 2),
         ([INIT, spawn("main"), op(18, n=1000000)], real_n),
         ([INIT, spawn("main"), op(15, n=r.choice([1, 5, 1000]))], real_n),
         ([INIT, spawn("main"), op(5, n=2000000000)], real_n),
         ([INIT, spawn("main"), op(17)], real_n),
         ([INIT, spawn("main"), op(16)], real_n // 4)]
    return m


@prop
def C08(ck):
    small = [I(3), S("l" * 30), I(5), I(4), S("h"), S("g" * 3), I(7)]
    # live data stays below an eighth of the heap
    large = lambda n: [I(n), S("L" * 20000), I(2500), I(400), S("H" * 60000), S("G" * 30000), I(10000)]
    r = ck.rng("modes")
    heavy = {"long strings": 60, "host strings": 100, "large arrays": 100, "huge strings": 250, "huge arrays": 250,
             "huge arguments": 250}
    cases = []
    names = sorted(GARBAGE)
    pairs = [(a,) for a in names]
    if ck.thorough:
        pairs += [(a, b) for a in names for b in names if a < b]
    else:
        pairs += [tuple(r.sample(names, 2)) for _ in range(12)]
    for p in pairs:
        text = garbage_program("".join(GARBAGE[a] for a in p))
        for k, (ops, n) in enumerate(c08_modes(r, ck.thorough, 30000)):
            if len(p) > 1 and not ck.thorough and r.random() < 0.6:
                continue
            n //= max([heavy.get(a, 1) for a in p] + [3 if len(p) > 1 else 1])
            if any(o["o"] == 16 for o in ops):
                n = min(n, 4000)
            cases.append(Case(text, ops, opt=k % 2, dump=0, inputs=small, real={"inputs": large(max(n, 60))},
                              limit=60, what="garbage: " + ", ".join(p)))
    ck.traces_stage("garbage of every kind in every mode", cases)
    cases = []
    for what, t in LIVE_STRINGS:
        t = t if "function down" in t else C08_DEFS + t
        base = {"deep recursion over a long string": 30, "a list grown and dropped": 120, "thread results": 400}.get(what, 12000)
        for k, (ops, n) in enumerate(c08_modes(r, ck.thorough, base)):
            threads = "new_thread" in t
            if threads and any(o["o"] in (2, 15, 16, 17, 5) for o in ops):
                continue
            if any(o["o"] == 16 for o in ops):
                n = min(n, 1500) if base > 1000 else 4
            cases.append(Case(t, ops, opt=k % 2, dump=0, inputs=small, real={"inputs": large(n)}, limit=60, what=what))
        if threads:
            for n in (2, 10, 400, 100000):
                cases.append(Case(t, [INIT, spawn("main"), op(18, n=n)], dump=0, inputs=small, real={"inputs": large(base)}, limit=60, what=what))
    ck.traces_stage("bounded live data", cases)
    # values that many places share are kept once
    cases = []
    for k, (length, how) in enumerate([(n, h) for n in (1, 7, 15, 16, 40, 300) for h in (0, 1)]):
        many = ", ".join(["s"] * 400)
        t = ("var g\nfunction fill(s)\n  return [%s]\nend\nfunction main()\n  g = new_array(get(0))\n  var i = 0\n  while (i < get(0))\n    g[i] = fill(get(1))\n    i = i + 1\n  end\n"
             "  var t\n  i = 0\n  while (i < get(2))\n    t = new_array(get(3))\n    i = i + 1\n  end\n  return g[0][0] == g[0][399] and len(g[0]) == 400\nend\n" % many)
        cases.append(Case(t, [INIT, call("main")] if how == 0 else [INIT, spawn("main"), op(18, n=5000)], opt=k % 2, dump=0, limit=60,
                          inputs=[I(2), S("ab"), I(3), I(4)], real={"inputs": [I(36), S("x" * length), I(300), I(4500)]}, what="shared values"))
    ck.traces_stage("shared values", cases)
    # many calls and threads from the host, with arguments and results
    cases = []
    for f, a, b in (("quit", (S("x" * 10),), (S("x" * 10000),)), ("quit", (I(1),), (I(1),)), ("broken", (S("y"),), (S("y" * 500),)),
                    ("id2", (S("a"), F(1.5)), (S("a" * 3000), F(1.5))), ("down", (I(5), S("z")), (I(60), S("z" * 900))),
                    ("sleepy", (NONE,), (NONE,)), ("keepg", (S("k"),), (S("k" * 2000),))):
        t = C08_DEFS + "function keepg(x)\n  g = [x, g0, 1]\n  return 5\nend\nfunction main()\nend\n"
        n = 300 if len(b[0]) > 1 and isinstance(b[0][1], list) and len(b[0][1]) > 5000 else 3000
        for k in range(2):
            res = {"quit": "ok"}
            if f in ("quit", "id2", "down"):
                # the result shows the argument: the same one on both sides
                cases.append(Case(t, [INIT, op(19, f, b, n=3), op(2, f, a)], opt=k, dump=0, limit=60,
                                  real={"ops": [INIT, op(19, f, b, n=n * 4), op(2, f, a)]}, what="many calls of " + f))
            else:
                cases.append(Case(t, [INIT, op(19, f, a, n=3), call("quit", I(1))], opt=k, dump=0, limit=60,
                                  real={"ops": [INIT, op(19, f, b, n=n * 4), call("quit", I(1))]}, what="many calls of " + f))
            for p in (1, 4, 100000):
                cases.append(Case(t, [INIT, op(20, f, a, n=2, p=p), call("quit", S("e"))], opt=k, dump=0, limit=60,
                                  real={"ops": [INIT, op(20, f, b, n=n * 2, p=p), call("quit", S("e"))]},
                                  what="many threads of " + f))
    # and from functions of the host
    for k in range(2):
        t = C08_DEFS + "function back(x)\n  return [x, x + x]\nend\nfunction asks(x)\n  var y = nest(back, x)\n  return len(y)\nend\nfunction asks2(x)\n  return len(nest(back, x)) + nest(asks, x)\nend\nfunction main()\nend\n"
        for f in ("asks", "asks2"):
            cases.append(Case(t, [INIT, op(19, f, (S("n"),), n=3), call("quit", I(1))], opt=k, dump=0, limit=60,
                              real={"ops": [INIT, op(19, f, (S("n" * 2000),), n=4000), call("quit", I(1))]}, what="calls made by host functions"))
            cases.append(Case(t, [INIT, op(20, f, (S("n"),), n=2, p=7), call("quit", I(1))], opt=k, dump=0, limit=60,
                              real={"ops": [INIT, op(20, f, (S("n" * 2000),), n=2000, p=7), call("quit", I(1))]}, what="calls made by host functions"))
    ck.traces_stage("many calls and threads", cases)

    def stage(k):
        r = ck.rng("random", k)
        cases = []
        for i in range(ck.n(20, 120)):
            p = [r.choice(names) for _ in range(r.randint(2, 5))]
            ops, n = r.choice(c08_modes(r, ck.thorough, 30000))
            n //= max([heavy.get(a, 1) for a in p] + [len(p)])
            if any(o["o"] == 16 for o in ops):
                n = min(n, 1000)
            cases.append(Case(garbage_program("".join(GARBAGE[a] for a in p)), ops, opt=r.randint(0, 1), dump=0, inputs=small,
                              real={"inputs": large(max(n, 60))}, limit=60, what="garbage: " + ", ".join(p)))
        ck.traces_stage("mixed garbage %d" % k, cases)
    rounds(ck, 500, stage)


# ---------------------------------------------------------------------- C10
# programs whose threads show when they run
SCHED = {
    "two workers": "function w(k)\n  out(k)\n  out(k + 1)\n  out(k + 2)\nend\nfunction main()\n  new_thread(w, 10)\n  out(1)\n  new_thread(w, 20)\n  out(2)\nend\n",
    "sleepers": "function w(k)\n  wait(k)\n  out(k)\n  wait(1)\n  out(-k)\nend\nfunction main()\n  new_thread(w, 1)\n  new_thread(w, 2)\n  new_thread(w, 3)\n  wait(2)\n  out(0)\nend\n",
    "fails": "function w(k)\n  out(k)\n  return k[0]\nend\nfunction v(k)\n  out(k)\n  out(k)\n  out(k)\nend\nfunction main()\n  new_thread(v, 1)\n  new_thread(w, 2)\n  new_thread(v, 3)\n  out(0)\n  out(0)\nend\n",
    "chain": "function w(k)\n  out(k)\n  if (k > 0)\n    new_thread(w, k - 1)\n  end\n  out(-k)\nend\nfunction main()\n  new_thread(w, 3)\nend\n",
    "wait zero": "function w(k)\n  out(1)\n  wait(0)\n  out(2)\n  wait(1)\n  wait(1)\n  out(3)\nend\nfunction main()\n  new_thread(w, 0)\n  wait(0)\n  out(9)\nend\n",
    "wait last": "function w(k)\n  out(k)\n  wait(2)\nend\nfunction main()\n  new_thread(w, 1)\n  new_thread(w, 2)\nend\n",
    "yield": "var turn = 0\nfunction w(k)\n  var i\n  for (i = 0 to 4)\n    turn = turn * 2 + k\n    out(turn)\n    halt()\n  end\nend\nfunction main()\n  new_thread(w, 1)\n  new_thread(w, 0)\nend\n",
    "shared counter": "var n = 0\nfunction w(k)\n  var i = 0\n  while (i < 3)\n    var t = n\n    n = t + k\n    i += 1\n  end\n  out(n)\nend\nfunction main()\n  new_thread(w, 1)\n  new_thread(w, 100)\n  w(10000)\nend\n",
}


def sched_case(text, seq, what, **kw):
    kw.setdefault("dump", 2)
    return Case(text, [INIT, spawn("main")] + list(seq), flags=FL_PROGRAM, mode="code", what=what, **kw)


def host_script(r, n, tmax, fns=(), debug=0.0, lines=0, reset=0.0, calls=0.1):
    """n random host operations"""
    out = []
    for _ in range(n):
        x = r.random()
        t = r.randint(1, tmax)
        if x < debug:
            y = r.random()
            ln = r.randint(0, lines + 1)
            if y < 0.4:
                out.append(op(8, t=t, p=ln))
            elif y < 0.5:
                out.append(op(9, t=t, p=ln))
            elif y < 0.55:
                out.append(op(10, t=t))
            elif y < 0.85:
                out.append(op(7, t=t))
            else:
                out.append(op(6, t=t))
        elif x < debug + reset:
            out.append(op(11))
            out.append(INIT)
        elif x < debug + reset + calls and fns:
            f = r.choice(fns)
            a = [rand_value(r, y if y in "ifs" else r.choice("ifsn")) for y in f.args]
            if f.rec and a:
                a[0] = I(r.randint(0, 2))
            out.append((call if r.random() < 0.4 else spawn)(f.name, *a))
        elif r.random() < 0.7:
            out.append(op(4, n=r.choice([0, 1, 1, 2, 3, 5, 8, 13, 40, 200, 100000])))
        else:
            out.append(op(5, t=t, n=r.choice([0, 1, 2, 4, 9, 50])))
    return out


@prop
def C10(ck):
    # every history of resumes with these budgets, the host adding threads and making calls
    texts = [t for _, t in sorted(SCHED.items())]
    alphabet = [op(4, n=1), op(4, n=3), op(4, n=7), op(4, n=1000), spawn("w", I(5)), op(5, t=3, n=2)]
    host_histories(ck, "schedules", texts, alphabet, ck.n(4, 7), maxth=6, solo=0, limit=ck.n(2500, 30000), ending=[op(18, n=7)], opt=1)
    alphabet = [op(4, n=2), op(4, n=11), spawn("w", I(1)), call("w", I(3)), op(11), INIT, op(4, n=0), op(6, t=0)]
    host_histories(ck, "schedules and resets", texts, alphabet, ck.n(4, 6), maxth=5, solo=0, limit=ck.n(1200, 20000), opt=0, h=1536)
    # constant budgets until the end, each state seen
    cases = []
    for name, text in sorted(SCHED.items()):
        for n in list(range(1, 25)) + [50, 100, 1000]:
            cases.append(sched_case(text, [op(4, n=n) for _ in range(min(60, 4 + 300 // n))], "constant budget: " + name))
    for w in (127, 128, 255, 256, 257, 300, 520):
        t = ("function w(k)\n  wait(k)\n  out(k)\n  wait(2)\n  out(-k)\nend\nfunction main()\n  new_thread(w, %d)\n  wait(%d)\n  out(0)\nend\n" % (w, w - 1))
        cases.append(sched_case(t, [op(4, n=100)] * (w + 6), "long sleeps", dump=1))
    for w in (32767, 32768, 65535, 65536, 65539, 1000000, 2**31 - 1):
        t = "function w(k)\n  wait(k)\n  out(k)\nend\nfunction main()\n  out(1)\n  wait(%d)\n  out(2)\nend\n" % w
        cases.append(sched_case(t, [spawn("w", I(w))] + [op(4, n=100)] * 8, "long sleeps"))
    t = ("var n = 0\nfunction w(k)\n  wait(k %% 3)\n  out(k)\n  n = n + 1\nend\nfunction main()\n  var i\n  for (i = 0 to %d)\n    new_thread(w, i)\n  end\n  return n\nend\nfunction left()\n  return n\nend\n")
    for k in (260, 300):
        cases.append(Case(t % k, [INIT, spawn("main")] + [op(4, n=100000)] * 6 + [call("left")], dump=0, limit=60, what="many threads"))
    ck.traces_stage("constant budgets", cases)

    def stage(k):
        r = ck.rng("random", k)
        cases = []
        for i in range(ck.n(300, 600)):
            t, g = gen.program(r, threads=2.0, halts=0.2, fails=0.05, call=1, budget=300, globs=(1, 4), setg=2,
                               odd=r.choice([0, 0, 0.03]))
            c = sched_case(t, host_script(r, r.choice([10, 25, 50]), 7, g.fns, calls=0.12, reset=0.01) + [op(18, n=r.randint(1, 30))],
                           "random schedule", opt=r.randint(0, 1), h=r.choice([0, 0, 1536]))
            c.dump = r.choice([1, 2, 2])
            cases.append(c)
        for i in range(ck.n(60, 120)):
            # source semantics, run to the end
            t, g = gen.program(r, threads=2.0, budget=300, globs=(1, 4), odd=r.choice([0, 0, 0.03]))
            cases.append(Case(t, [INIT, spawn("main")] + [op(4, n=100000)] * r.randint(3, 12), opt=r.randint(0, 1), dump=1,
                              h=r.choice([0, 1536]), what="whole slices"))
        ck.traces_stage("random schedules %d" % k, cases)
    rounds(ck, 600, stage)


# ---------------------------------------------------------------------- C11
SLICES = [
    "function f(a, b)\n  var t = a * b\n  return t - 1\nend\nfunction main()\n  var x = f(3, 4) + f(2, f(1, 1))\n  out(x)\n  if (x > 3)\n    out(f(x, x))\n  end\n  return x\nend\n",
    "var g = [1, 2]\nfunction r(n)\n  if (n == 0)\n    return g[0]\n  end\n  g[1] = n\n  return r(n - 1) + n\nend\nfunction main()\n  var s = \"\" + r(3)\n  return s + g[1]\nend\n",
    "function main()\n  var i\n  var a = new_array(3)\n  for (i = 0 to 3)\n    a[i] = i * 1.5\n  end\n  while (i > 0)\n    i -= 1\n    out(a[i])\n  end\n  return a\nend\n",
    "function main()\n  var f = out\n  f(1)\n  f = main2\n  f(none, \"x\")\n  return f\nend\nfunction main2(a, b)\n  emit(a, b, a, b)\n  return b[0]\nend\n",
    "function main()\n  out(1)\n  halt()\n  out(2)\n  halt()\n  halt()\n  return 3\nend\n",
    "function main()\n  var x = 5\n  x = x / (x - 5)\n  out(x)\nend\n",
]


def split_case(text, cuts, what, ending, **kw):
    return Case(text, [INIT, spawn("main")] + cuts + ending, flags=FL_PROGRAM, mode="code", what=what, dump=kw.pop("dump", 2), **kw)


@prop
def C11(ck):
    cases = []
    end = [op(15, t=2, n=1000)]
    for text in SLICES:
        for o in (0, 1):
            for n in range(1, 90):
                cases.append(split_case(text, [op(5, t=2, n=n)], "cut once after n", end, opt=o))
                if n <= 12:
                    cases.append(split_case(text, [op(5, t=2, n=n)] * (100 // n), "constant slices", end, opt=o))
            cases.append(split_case(text, [op(6, t=2)] * 90, "single steps", end, opt=o))
            cases.append(split_case(text, [op(7, t=2)] * 40, "line steps", end, opt=o))
            cases.append(split_case(text, [op(5, t=2, n=1), op(6, t=2)] * 45, "alternating", end, opt=o))
            cases.append(split_case(text, [op(4, n=1)] * 90, "vm resume", end, opt=o))
            for n in range(1, 30):
                cases.append(split_case(text, [op(5, t=2, n=n), op(7, t=2), op(6, t=2), op(5, t=2, n=0), op(4, n=2)], "mixed", end, opt=o))
    ck.traces_stage("every cut", cases)
    # budgets of every size: cut inside a long run, or larger than any of it
    count = "var n = 0\nfunction main()\n  while (1)\n    n = n + 1\n  end\nend\n"
    cases = [split_case(count, [op(5, t=2, n=a), op(4, n=b), op(5, t=2, n=c)], "long slices", [])
             for a, b, c in [(255, 256, 257), (40000, 40000, 9), (65536, 3, 65539)] + ck.n([], [(131072, 1, 70000), (300000, 2, 2), (3, 270000, 1)])]
    for text in SLICES:
        for n in (32768, 65536, 65537, 131075, 2**24 + 1, 2**30 + 2, 2**31 - 1):
            cases.append(split_case(text, [op(5, t=2, n=2), op(5, t=2, n=n), op(4, n=n), op(5, t=2, n=n)], "large budgets", end))
    # runs far longer than the model's: what they show does not depend on the length
    long = ("function main()\n  var i = 0\n  var n = get(0)\n  var a = [1, 2]\n  while (i < n)\n    a[0] = a[1]\n    i += 1\n  end\n  out(a)\n  return \"end\"\nend\n")
    for ops in ([op(5, t=2, n=2**30)], [op(4, n=2**31 - 1)], [op(5, t=2, n=2000000)], [op(15, t=2, n=1)], [op(15, t=2, n=300001)], [op(15, t=2, n=65536)], [op(16, t=2)], [op(17, t=2)],
                [op(18, n=1)], [op(18, n=65536)], [op(18, n=2**31 - 1)], [call("main")]):
        for o in (0, 1):
            cases.append(Case(long, [INIT, spawn("main")] + ops, opt=o, inputs=[I(3)], real={"inputs": [I(60000)]}, dump=1, limit=60, what="long runs"))
    cases.append(Case(long, [INIT, call("main")], inputs=[I(3)], real={"inputs": [I(ck.n(500000, 5000000))]}, dump=1, limit=120, what="long runs"))
    begin = "var ga = work(get(0))\nvar gb = [ga, 7]\n" + long.replace("function main()", "function work(n)").replace("  var n = get(0)\n", "") + "function main()\n  return gb\nend\n"
    for n in (2000, 10000, 200000):
        cases.append(Case(begin, [INIT, call("main"), INIT, spawn("main"), op(4, n=100)], opt=n // 2000 % 2, inputs=[I(3)], real={"inputs": [I(n)]}, dump=1, limit=120, what="long runs"))
    ck.traces_stage("slices of every size", cases)
    # every state of these runs, and from each every operation
    alphabet = [op(5, t=2, n=1), op(5, t=2, n=2), op(5, t=2, n=7), op(5, t=2, n=0), op(6, t=2), op(7, t=2), op(4, n=3)]
    host_histories(ck, "slices", SLICES, alphabet, 200, halts=1, limit=ck.n(1600, 30000), ending=[op(15, t=2, n=1000)])

    def stage(k):
        r = ck.rng("random", k)
        cases = []
        for i in range(ck.n(420, 900)):
            t, g = gen.program(r, budget=500, halts=0.2, fails=0.03, odd=0.03)
            cuts = []
            for _ in range(r.choice([3, 15, 40])):
                x = r.random()
                cuts.append(op(5, t=2, n=r.choice([0, 1, 1, 2, 3, 7, 20, 100, 500])) if x < 0.6 else op(6, t=2) if x < 0.75 else
                            op(7, t=2) if x < 0.9 else op(4, n=r.choice([1, 2, 5, 30])))
            e = [op(r.choice([15, 16, 17]), t=2, n=r.choice([1, 2, 3, 17, 100000]))]
            cases.append(split_case(t, cuts, "random slices", e, opt=r.randint(0, 1)))
        # the source semantics at the end of a sliced run
        for i in range(ck.n(220, 500)):
            t, g = gen.program(r, budget=500, odd=0.03)
            n = r.choice([1, 1, 2, 3, 5, 11, 64])
            o = r.choice([15, 15, 16, 17, 18])
            cases.append(Case(t, [INIT, spawn("main"), op(o, t=2, n=n)], opt=r.randint(0, 1), dump=1, flags=r.choice([0, FL_JUNK]),
                              what="sliced run of the source"))
        ck.traces_stage("random slices %d" % k, cases)
    rounds(ck, 600, stage)


# ---------------------------------------------------------------------- C12
DEBUG = [
    "function f(a)\n  var t = a\n  return t + 1\nend\nfunction main()\n  var i = 0\n  while (i < 3)\n    i = f(i)\n    out(i)\n  end\n  if (i == 3)\n    out(7)\n  else\n    out(8)\n  end\n  return i\nend\n",
    "var g = 3\nfunction main()\n  var i\n  for (i = 0 to 3)\n    out(i)\n  end\n  var s = [1, 2, 3]\n\n  s[0] = g\n  out(s)\nend\n",
    "function r(n)\n  if (n > 0)\n    r(n - 1)\n  end\n  out(n)\nend\nfunction main()\n  r(3)\n  r(1)\n  r(0)\nend\n",
    "function main()\n  var x = 1\n  out(x)\n  out(x + 1)\n  x = x[0]\n  out(2)\nend\n",
    "function e()\nend\nfunction main()\n  e()\n  while (0)\n    out(1)\n  end\n  while (1)\n    return 4\n  end\nend\n",
]


@prop
def C12(ck):
    import itertools
    r0 = ck.rng("again")
    cases = []
    for text in DEBUG:
        n = text.count("\n")
        sets = [(i,) for i in range(0, n + 2)] + list(itertools.combinations(range(1, n + 1), 2))
        if not ck.thorough:
            r = ck.rng("sets")
            sets = sets[:n + 2] + r.sample(sets[n + 2:], min(12, len(sets) - n - 2))
        for s in sets:
            add = [op(8, t=2, p=l) for l in s]
            run = [op(5, t=2, n=1000)] * 14
            cases.append(split_case(text, add, "stops at lines", run))
            cases.append(split_case(text, add, "stops at lines, vm resume", [op(4, n=1000)] * 14, opt=0))
            cases.append(split_case(text, add, "stops at lines, small slices", [op(5, t=2, n=2)] * 60, opt=0))
            cases.append(split_case(text, add, "line steps over breakpoints", [op(7, t=2), op(5, t=2, n=1000)] * 10))
            cases.append(split_case(text, [op(7, t=2)] * 4 + add + [op(5, t=2, n=1000)] * 4 + [op(9, t=2, p=s[0])] + run, "removed on the way", []))
            cases.append(split_case(text, add + [op(5, t=2, n=1000)] * 3 + [op(10, t=2)] + run[:3], "cleared on the way", []))
            for k in ck.n((5,), (1, 2, 3, 5, 8, 13, 21)):
                gone = r0.choice([[op(10, t=2)], [op(9, t=2, p=l) for l in s]])
                cases.append(split_case(text, add + [op(5, t=2, n=1000)] * r0.choice([1, 2, 3]) + [op(7, t=2)] * r0.choice([0, 1]) + gone + [op(5, t=2, n=r0.randint(1, k + 8))]
                                        + add + run[:6], "removed and marked again", []))
            cases.append(split_case(text, add, "ignored by calls", [call("main"), op(18, n=1000)], dump=1))
            cases.append(split_case(text, add, "steps with breakpoints", [op(6, t=2)] * 30 + [op(15, t=2, n=3)]))
        cases.append(split_case(text, [], "line steps", [op(7, t=2)] * 40))
        every = [op(8, t=2, p=l) for l in range(0, n + 2)]
        cases.append(split_case(text, every, "every line", [op(5, t=2, n=1000)] * 50))
        cases.append(split_case(text, every, "every line, then none", [op(5, t=2, n=1000)] * 5 + [op(9, t=2, p=l) for l in range(0, n + 2)] + [op(5, t=2, n=1000)]))
    # many breakpoints
    t = "function main()\n  var x = 0\n" + "".join("  x = x + %d\n" % i for i in range(400)) + "  return x\nend\n"
    for k in ck.n((300,), (127, 128, 129, 255, 256, 257, 300, 400)):
        at = list(range(3, 3 + k))
        cases.append(split_case(t, [op(8, t=2, p=l) for l in at], "many breakpoints", [op(5, t=2, n=100000)] * (k + 2)))
        cases.append(split_case(t, [op(8, t=2, p=l) for l in at[::-1]] + [op(9, t=2, p=l) for l in at[:: 3]], "many breakpoints, some removed", [op(15, t=2, n=1000)]))
    ck.traces_stage("every breakpoint", cases)
    # two files whose line numbers coincide
    cases = []
    for i in range(len(shapes.TWO_FILES)):
        for shift in range(-7, 8):
            fs = shapes.two_files(shift, i, swap=shift % 2)
            at = [f * 65536 + l for f, l in shapes.lines_of(fs)]
            for p in at + [None]:
                add = [op(8, t=2, p=x) for x in ([p] if p is not None else at)]
                if p is not None and not ck.thorough and (p + shift) % 3 and shift not in (0, -1, 1, 2):
                    continue
                c = split_case("", add, "stops in two files", [op(5, t=2, n=1000)] * 12 if p is not None else [op(7, t=2), op(5, t=2, n=1000)] * 20, opt=0)
                c.files, c.flags = fs, c.flags | FL_FILES
                cases.append(c)
            # the same line marked in both files and removed in one of them
            for p in at:
                other = [q for q in at if q % 65536 == p % 65536 and q != p]
                if not other or (not ck.thorough and (p + shift + i) % 2):
                    continue
                for gone, k in ((p, 9), (other[0], 9)):
                    c = split_case("", [op(8, t=2, p=p), op(8, t=2, p=other[0]), op(k, t=2, p=gone)], "removed in one of two files", [op(5, t=2, n=1000)] * 8, opt=0)
                    c.files, c.flags = fs, c.flags | FL_FILES
                    cases.append(c)
    ck.traces_stage("lines of two files", cases)
    # every session of these operations
    for text, ls in ((DEBUG[0], (3, 8)), (DEBUG[1], (5,)), (DEBUG[2], (2, 5)), (DEBUG[3], (2, 5)), (DEBUG[4], (4, 9)), (SLICES[4], (2, 4))):
        alphabet = [op(5, t=2, n=1000), op(5, t=2, n=2), op(7, t=2), op(6, t=2), op(10, t=2), op(4, n=5)]
        alphabet += [op(o, t=2, p=l) for l in ls for o in (8, 9)]
        host_histories(ck, "sessions", [text], alphabet, ck.n(4, 8), halts=int("halt" in text), limit=ck.n(220, 8000), opt=0, ending=[op(15, t=2, n=1000)])

    def stage(k):
        r = ck.rng("random", k)
        cases = []
        for i in range(ck.n(350, 700)):
            t, g = gen.program(r, budget=400, halts=r.choice([0, 0.2]), threads=r.choice([0, 0, 1.5]), odd=r.choice([0, 0.03]), blank=0.1)
            n = t.count("\n")
            ops = [op(8, t=2, p=r.randint(1, n)) for _ in range(r.choice([0, 1, 2, 5, 20]))]
            ops += host_script(r, r.choice([10, 30, 60]), 3 if r.random() < 0.5 else 2, g.fns, debug=0.5, lines=n, calls=0.03)
            ops += [op(15, t=2, n=1000)]
            c = split_case(t, ops, "random debugging", [], opt=r.randint(0, 1))
            c.dump = r.choice([1, 2, 2])
            cases.append(c)
        # debugging never changes what the source does
        for i in range(ck.n(200, 400)):
            t, g = gen.program(r, budget=400, odd=r.choice([0, 0.03]))
            n = t.count("\n")
            ops = [INIT, spawn("main")] + [op(8, t=2, p=r.randint(1, n)) for _ in range(r.choice([1, 3, 20]))]
            ops += [op(r.choice([15, 15, 17]), t=2, n=r.choice([1, 5, 1000]))]
            cases.append(Case(t, ops, opt=r.randint(0, 1), dump=1, what="the source under breakpoints"))
        ck.traces_stage("random debugging %d" % k, cases)
    rounds(ck, 600, stage)


# ---------------------------------------------------------------------- C13
SAVED = [
    "function main()\nend\n",
    "var g = 1\nconst K = 2.5\nfunction f(a, b)\n  var c = a\n  if (b)\n    var d = \"str\"\n    out(d + c)\n  end\n  return c\nend\nfunction main()\n  emit(\"one\", \"two\", K)\n  return f(1, g)\nend\n",
]


def saved_programs(r, n, **kw):
    out = []
    while len(out) < n:
        t, g = gen.program(r, **kw)
        out.append(t)
    return out


def large_saved(n):
    return ("".join("var g%d = \"text number %d\"\n" % (i, i) for i in range(n)) +
            "".join("function f%d(a)\n  var loc = a + %d\n  out(\"f%d\")\n  return loc\nend\n" % (i, i, i) for i in range(n)) +
            "function main()\n  return f0(1)\nend\n")


def sized_program(n, base=35):
    """a program whose code (not optimised) has n bytes: w = 1 has 10, w = not w has 11"""
    b = (n - base) % 10
    a = (n - base - 11 * b) // 10
    return ("var w = 1\nfunction main()\n  return 3\nend\nfunction pad()\n" + "  w = 1\n" * (a - 1) + "  w = not w\n" * b + "  return w\nend\n")


def replayed(ck, name, module, alphabet, depth, env=None, limit=None):
    """histories that TLC generates from a module over an alphabet of operations"""
    import json, os, re, tempfile, shutil
    d = tempfile.mkdtemp(prefix="nv-alpha-")
    try:
        p = os.path.join(d, "alphabet.ndjson")
        with open(p, "w") as f:
            for a in alphabet:
                f.write(json.dumps(a) + "\n")
        e = {"ALPHABET": p, "DEPTH": str(depth)}
        e.update(env or {})
        r = ck.model_stage(name, module, env=e, workers=1)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    hs = sorted(set((i, tuple(int(x) for x in re.findall(r"\d+", s))) for i, s in r.prints))
    # a history that another one continues says nothing of its own
    hs = [h for h, n in zip(hs, hs[1:] + [(-1, ())]) if not (h[0] == n[0] and n[1][:len(h[1])] == h[1])]
    if not hs:
        raise lib.CheckError("no histories from " + module)
    ck.stages[-1]["histories"] = len(hs)
    if limit and len(hs) > limit:
        hs = ck.rng(name + "/histories").sample(hs, limit)
    ck.stages[-1]["replayed"] = len(hs)
    return [(i, [alphabet[x - 1] for x in h]) for i, h in hs]


def host_histories(ck, name, texts, alphabet, depth, maxth=2, solo=1, halts=0, limit=None, start=(), ending=(), opt=None, h=0):
    """the programs explored by TLC under all histories of host operations, replayed into the real code"""
    import json, os, tempfile, shutil
    first = [INIT, spawn("main")] + list(start)
    base = [Case(t, first, opt=o, h=h, flags=FL_PROGRAM, mode="code", what=name) for t in texts for o in ((0, 1) if opt is None else (opt,))]
    lib.observe(lib.number(base), lib.build())
    d = tempfile.mkdtemp(prefix="nv-host-")
    try:
        p = os.path.join(d, "cases.ndjson")
        with open(p, "w") as f:
            for c in base:
                if c.obs.get("rc") != 1 or c.obs.get("end") != 0:
                    ck.traces_stage(name + ": programs", base)
                    raise lib.CheckError("a fixed program does not compile")
                j = dict(c.spec_json(), solo=solo, halts=halts)
                f.write(json.dumps(j) + "\n")
        try:
            hs = replayed(ck, name + ": all histories", "MCHost", alphabet, depth, env={"CASES": p, "MAXTH": str(maxth)}, limit=limit)
        except lib.CheckError:
            # code that cannot be explored: is it the program?
            for m in ("form", "src"):
                for c in base:
                    c.mode, c.ops = m, first + [op(18, n=100000)]
                ck.traces_stage(name + ": programs", base)
            raise
    finally:
        shutil.rmtree(d, ignore_errors=True)
    cases = [Case("", first + ops + list(ending), files=base[i - 1].files, opt=base[i - 1].opt, h=h, flags=FL_PROGRAM, mode="code", dump=2,
                  what=name) for i, ops in hs]
    ck.traces_stage(name + ": replayed", cases)


@prop
def C13(ck):
    r = ck.rng("programs")
    A, B = SAVED[1], large_saved(3)
    # all histories of one file, generated from the specification
    alphabet = [op(30, t=1, p=1), op(30, t=1, p=2), op(31, t=1, p=1), op(32, t=1, n=-1), op(32, t=1, n=3), op(32, t=1, n=0),
                op(33, t=1, n=0, p=1), op(33, t=1, n=3, p=128), op(34, t=1), op(36, t=1, p=1), op(37, t=1, n=60, p=1)]
    hs = replayed(ck, "files of bytes", "MCSerial", alphabet, ck.n(4, 5), limit=ck.n(3000, 40000))
    learn = [op(30, t=9, p=1), op(30, t=9, p=2)]
    cases = [Case("", learn + h, flags=FL_HISTORY, files=[(b"", A.encode()), (b"", B.encode())], what="a history of saves and loads")
             for _, h in hs]
    ck.traces_stage("every history", cases, module="TraceSerial")
    # every truncation, header and write fault of some programs
    cases = []
    progs = SAVED + [large_saved(k) for k in ck.n([2, 12, 40], [2, 12, 40, 80])] + saved_programs(r, ck.n(8, 60), budget=800)
    for i, t in enumerate(progs):
        t2 = SAVED[(i + 1) % 2]
        ops = [op(30, t=9, p=2), op(38, t=1, p=1), op(38, t=1, p=1, n=1), op(41, t=1, p=1), op(39, t=2, p=1, n=1 if i < 4 else 7),
               op(40, t=2, p=1, n=1 if i < 4 else 7), op(35, p=1, n=0), op(35, p=1, n=1), op(35, p=1, n=2), op(30, t=3, p=1), op(31, t=3, p=1), op(31, t=9, p=1), op(31, t=3, p=1)]
        cases.append(Case("", ops, flags=FL_HISTORY, files=[(b"", t.encode("latin1")), (b"", t2.encode())], limit=ck.n(60, 400), what="every cut and fault"))
    ck.traces_stage("every cut and write fault", cases, module="TraceSerial")
    ck.traces_stage("cuts, checked memory", cases[:4], module="TraceSerial", variant="asan")
    cases = []
    for n in ck.n((256, 512, 1024, 2048, 4096, 8192, 16384), (256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 131072)):
        for d in (-1, 0, 1):
            t = sized_program(n + d)
            cases.append(Case("", [op(30, t=3, p=1), op(31, t=3, p=1), op(35, p=1, n=0)], opt=0, flags=FL_HISTORY, limit=60,
                              files=[(b"", t.encode()), (b"", SAVED[0].encode())], what="code of a round size"))
    ck.traces_stage("sizes of code", cases, module="TraceSerial")

    def stage(k):
        r = ck.rng("random", k)
        cases = []
        for i in range(ck.n(350, 700)):
            c = general(r, strs=2, blank=0.1, odd=0.03, dump=r.choice([1, 1, 0]), flags=FL_SERIAL)
            c.what = "saved, loaded and run"
            cases.append(c)
        for i in range(ck.n(100, 200)):
            c = general(r, strs=2, threads=r.choice([0, 1]), flags=FL_SERIAL | FL_PROGRAM)
            c.ops = [INIT, spawn("main"), op(7, t=2), op(4, n=9), op(18, n=5)]
            c.mode, c.dump, c.what = "code", 2, "saved, loaded and stepped"
            cases.append(c)
        for i in range(ck.n(60, 150)):
            c = several_files(r, strs=2, flags=FL_SERIAL)
            c.what = "several files, saved and loaded"
            if i % 2:
                c.ops = [INIT, spawn("main"), op(7, t=2), op(12, t=2)]
                c.flags |= FL_PROGRAM
                c.mode = "code"
            cases.append(c)
        if k == 0:
            for t in big_programs():
                cases.append(Case(t, [INIT, call("main")], flags=FL_SERIAL, what="large program saved and loaded"))
            for n in (0, 1, 62, 63, 64, 127, 128, 255, 256, 1023, 1024, 1025, 4095, 4096, 5000):
                for nm in ("s", "L"):
                    t = ("var v%s = 1\nfunction f%s(a%s)\n  var l%s = a%s\n  return \"%s\"\nend\nfunction main()\n  return f%s(v%s)\nend\n"
                         % (("n" * n if nm == "L" else "",) * 5 + ("t" * n,) + ("n" * n if nm == "L" else "",) * 2))
                    cases.append(Case(t, [INIT, call("main")], flags=FL_SERIAL, what="long names and strings"))
            t = "function main()\n" + "".join("  out(\"%s\")\n" % ("s" * n) for n in range(270)) + "end\n"
            cases.append(Case(t, [INIT, call("main")], flags=FL_SERIAL, what="strings of all lengths"))
            for n in (32767, 32768, 65535, 65536, 65540, 140000):
                t = "function main()\n  return len(\"%s\") + len(\"after\")\nend\n" % ("abcde" * 40000)[:n]
                cases.append(Case(t, [INIT, call("main")], flags=FL_SERIAL | FL_PROGRAM, mode="code", what="very long strings"))
                t = "var " + "n" * n + " = 5\nfunction main()\n  vars()\n  return " + "n" * n + "\nend\n"
                cases.append(Case(t, [INIT, call("main")], flags=FL_SERIAL | FL_PROGRAM, mode="code", what="very long names"))
                t = "function f(x)\n  return x\nend\n" + "\n" * n + "function main()\n  out(1)\n  out(2)\n  return f(3)\nend\n"
                cases.append(Case(t, [INIT, spawn("main"), op(12, t=2)], flags=FL_SERIAL | FL_PROGRAM, mode="code", what="very many lines"))
        ck.traces_stage("round trips %d" % k, cases)
    rounds(ck, 500, stage)


# ---------------------------------------------------------------------- C14
FAULTS = ["1 / z", "1 % z", "z / z", "2147483647 % (z - z)", "none[0]", "arr[9]", "arr[-1]", 'arr["x"]', "arr[1.0]", "z[0]", "str[0]",
          "nothing()", "z()", "str(1)", "arr(0)", '"s" - 1', '-"s"', "-none", "-arr", "none + 1", "arr + 1", "arr * arr", "foo - 1", "abs < 1",
          "arr == 1", "none < 1", 'abs("x")', "abs(none)", "new_array(-1)", "new_array(0)", 'new_array("3")', "len(5)", "chr(none)", "sqrt(arr)",
          "min(1, none)", "bitand(1.5, 1)", "wait(none)", "new_thread(5)", "new_thread(foo, 1)", "new_thread(nothing)", "fv(1)", "fv(1, 2, 3)",
          "av(1, 2)", "av()", "nores(1)", "arr.foo", "str.x", "z.length", "nothing.y", "get(99)", "mk(77)", "mk(none)"] + \
         ["%s[%s]" % (a, i) for a in ("nothing", "z", "str", "fv", "av", "1.5") for i in ("none", '"k"', "1.5", "arr", "-1", "9")] + \
         ["fail(%d)" % i for i in range(1, 21)]
FAULT_DEFS = ("var z = 0\nvar str = \"text\"\nvar arr = [1, 2, 3]\nvar nothing\nvar fv = two\nvar av = abs\nvar count = 0\n"
              "function foo()\n  return 5\nend\nfunction two(a, b)\n  return a\nend\n"
              "function state()\n  count += 1\n  emit(z, str, arr, nothing, fv, av, count)\n  return count\nend\n")
FAULT_AT = ["  out(1)\n  out(%s)\n  out(2)\n", "  emit(1, \"a\", [1, %s], 3)\n", "  var i\n  for (i = 0 to 3)\n    count += 1\n    if (i == 1)\n      z = z + 0\n      count = count + (%s)\n    end\n  end\n",
            "  return [1, two(2, %s)]\n", "  while (%s)\n    out(3)\n    return 1\n  end\n", "  arr[two(0, %s)] = 7\n", "  deep(3, %s)\n",
            "  var v = \"p\" + (1 + (2 * (%s)))\n  out(v)\n", "  z = %s\n  z = 0\n", "  if (1 and (%s))\n    out(1)\n  else\n    out(2)\n  end\n"]
FAULT_STMT = ["z.x = 1", "arr.length = 2", "arr[3] = 1", "arr[none] = 1", "str[0] = 1", "z[0] = 1", "nothing[0] = 1", "nothing[none] = 1", "str[none] = 1", "z[9] = 1", "fv[1.5] = 1", 'arr["k"] = none', "arr[-1] = arr", "arr /= 1", "z /= 0", "str -= 1", "foo2 += 1"]


def fault_case(ck, exprs, ctx, opt, h, mode):
    t = [FAULT_DEFS, "function deep(n, x)\n  if (n == 0)\n    return x\n  end\n  return deep(n - 1, x)\nend\n"]
    for i, e in enumerate(exprs):
        t.append("function t%d()\n%send\n" % (i, ctx % e))
    t.append("function main()\nend\n")
    ops = [INIT]
    n = 2
    for i in range(len(exprs)):
        if mode == "call":
            ops += [call("t%d" % i), call("state")]
        elif mode == "thread":
            # the fault among other threads
            ops += [spawn("state"), spawn("t%d" % i), spawn("state"), op(4, n=100000), op(4, n=100000), op(4, n=100000), op(4, n=100000), op(4, n=100000)]
        else:
            ops += [spawn("t%d" % i), op(mode, n=10000), op(4, n=10), call("state")]
    return Case("".join(t), ops, opt=opt, h=h, dump=1, inputs=[I(1)], what="faults, %s" % mode)


@prop
def C14(ck):
    r = ck.rng("faults")
    cases = []
    # constant operands would be refused by the optimiser or the checker
    for k, ctx in enumerate(FAULT_AT):
        for mode in ("call", "thread", 5, 15, 16, 17):
            fs = list(FAULTS)
            if not ck.thorough:
                fs = r.sample(fs, 24)
            for j, part in enumerate(chunks(fs, 12)):
                cases.append(fault_case(ck, part, ctx, (j + k) % 2, r.choice([0, 512, 1024, 1536, 1536]), mode))
    for s in FAULT_STMT[:-1]:
        cases.append(fault_case(ck, [s], "  out(1)\n  %s\n  out(2)\n", r.randint(0, 1), 1536, "call"))
    ck.traces_stage("every fault", cases)
    # faults in the initialiser of a global
    cases = []
    for e in FAULTS:
        t = FAULT_DEFS + "var last = init2()\nvar after = 7\nfunction init2()\n  return %s\nend\nfunction show()\n  emit(z, last, after)\nend\nfunction main()\nend\n" % e
        cases.append(Case(t, [INIT, call("state"), call("show")], opt=r.randint(0, 1), h=1536, dump=1, inputs=[I(1)], what="fault in the initialiser"))
    ck.traces_stage("faults of initialisers", cases)
    # globals that do not exist yet, or no longer
    cases = []
    for i in range(ck.n(60, 400)):
        c = general(r, globs=(1, 6), setg=2, call=0.5, odd=0.05, h=1536)
        c.ops = c.ops[1:] + [spawn("main"), op(4, n=100000), INIT] + c.ops[1:] + ([op(11)] + c.ops[1:] + [INIT] + c.ops[1:] if i % 3 == 0 else [])
        cases.append(c)
    t = "var a = 1\nvar b\nfunction set(x)\n  out(0)\n  b = x\n  out(1)\n  return b\nend\nfunction get1()\n  return a\nend\nfunction none1()\n  return 5\nend\n"
    for o in (0, 1):
        cases.append(Case(t, [call("set", I(4)), call("get1"), call("none1"), INIT, call("set", I(5)), call("get1"), op(11), call("get1"), call("set", S("x")), call("none1")], opt=o, h=1536, what="before the globals"))
    ck.traces_stage("before the globals", cases)

    def stage(k):
        r = ck.rng("random", k)
        cases = []
        for i in range(ck.n(280, 600)):
            t, g = gen.program(r, odd=r.choice([0.1, 0.3]), fails=0.1, call=1, globs=(1, 4), setg=2, threads=r.choice([0, 0, 1]), member=0.2)
            ops = [INIT]
            for _ in range(r.randint(1, 4)):
                ops += [call("main")] if r.random() < 0.5 else [spawn("main")] + [op(4, n=100000)] * r.randint(1, 5)
                ops += host_calls(r, g)
            cases.append(Case(t, ops, opt=r.randint(0, 1), h=r.choice([0, 512, 1024, 1536, 1536]), dump=1, what="faulty programs"))
        for i in range(ck.n(140, 300)):
            t, g = gen.program(r, odd=r.choice([0.1, 0.3]), fails=0.15, call=1, globs=(1, 4), setg=2, threads=1.5, halts=0.1)
            c = sched_case(t, host_script(r, r.choice([10, 25]), 6, g.fns, calls=0.2, debug=0.1, lines=20) + [op(18, n=9)], "faulty threads",
                           opt=r.randint(0, 1), h=1536)
            cases.append(c)
        ck.traces_stage("faulty programs %d" % k, cases)
        ck.traces_stage("faulty programs %d, checked memory" % k, [x for x in cases if x.mode == "src"][:ck.n(60, 150)], variant="asan")
    rounds(ck, 500, stage)


# ---------------------------------------------------------------------- C15
HB = {"+": 1, "-": 2, "*": 4, "/": 8, "==": 16}


def wide_case(r, k):
    """calls of some of many host functions, directly and as values"""
    name = lambda i: "%s%d" % ("W" if i % 2 else "w", (319 - i) // 2)
    nargs = lambda i: r.randint(0, 4) if i % 7 == 0 else i % 3
    args = lambda n: ", ".join(r.choice(["1", "\"a\"", "2.5", "none", "x"]) for _ in range(n))
    body, defs = "", ""
    for j in range(14):
        i = r.choice([r.randint(0, 319), r.choice([0, 1, 6, 7, 228, 229, 230, 255, 256, 293, 294, 318, 319])])
        n = nargs(i) if r.random() < 0.97 else r.randint(0, 3)
        how = r.choice("dvag")
        if how == "d":
            body += "  emit(%s(%s), x)\n" % (name(i), args(n))
        elif how == "v":
            body += "  f = %s\n  out(f(%s))\n" % (name(i), args(n))
        elif how == "a":
            j2 = r.randint(0, 319)
            body += "  f = pick([%s, %s, out], 0)\n  emit(f, f(%s))\n" % (name(i), name(j2), args(n))
        else:
            defs += "var g%d = %s\n" % (j, name(i))
            body += "  emit(g%d(%s), g%d)\n" % (j, args(n), j)
    t = defs + "function pick(a, i)\n  return a[i]\nend\nfunction main(x)\n  var f\n" + body + "  return f\nend\n"
    return Case(t, [INIT, call("main", I(7)), call("main", S("s"))], opt=k % 2, dump=0, what="many host functions",
                flags=FL_WIDE | (FL_SERIAL if k % 3 == 0 else 0))


PASSED = ("var g0 = 5\nvar g1 = 2.5\nvar g2 = \"text\"\nvar g3 = [1, \"two\", 3.5]\nvar g4 = new_array(4)\nvar g5\nvar g6 = one\nvar g7 = emit\nvar g8 = [g3, g4, g3]\nvar g9 = setup()\n"
          "function setup()\n  g4[0] = g8\n  g4[1] = g4\n  g4[2] = \"in\"\n  return g3\nend\n"
          "function one(a)\n  out(a)\n  return a\nend\nfunction keep(a)\n  g5 = a\n  g9 = [a, g9]\n  return g9\nend\n"
          "function pair(a, b)\n  emit(b, a)\n  return [a, b]\nend\nfunction three(a, b, c)\n  var l = [c, a]\n  emit(l, b)\n  return l\nend\n"
          "function put(a, v)\n  a[1] = v\n  emit(a, v)\n  return a\nend\nfunction text(a)\n  return \"<\" + a + \">\"\nend\n"
          "function far(a)\n  var i\n  var x\n  for (i = 0 to 60)\n    junk(200)\n    x = [i, \"junk\" + i, a]\n  end\n  emit(a, x)\n  return x\nend\n"
          "function run(a, b)\n  return a(b)\nend\nfunction first(a)\n  return a[0]\nend\nfunction zero()\n  return g3\nend\nfunction rest(a)\n  wait(2)\n  emit(a, g3)\n  a[0] = \"rest\"\n  return a\nend\n")
PASSED_FN = [("one", 1), ("keep", 1), ("pair", 2), ("three", 3), ("put", 2), ("text", 1), ("far", 1), ("run", 2), ("first", 1), ("rest", 1)]


def passed_case(r, what, n=14, **kw):
    """the host gives values of the machine, globals and results, to calls and threads"""
    ops, after = [INIT], False
    for _ in range(n):
        x = r.random()
        if x < 0.1:
            ops.append(call("zero"))
            after = True
            continue
        f, k = r.choice(PASSED_FN)
        if r.random() < 0.04:
            k += r.choice([-1, 1])
        a = [I(-1) if after and r.random() < 0.6 else I(r.choice([3, 3, 4, 8, 9, 5, r.randint(0, 9), r.randint(0, 10)])) for _ in range(k)]
        if x < 0.7:
            ops.append(op(21, f, a))
            after = True
        else:
            ops.append(op(22, f, a))
            after = False
            if r.random() < 0.7:
                ops.append(op(4, n=r.choice([1, 5, 100000])))
    ops += [op(18, n=1000), call("zero")]
    return Case(PASSED, ops, opt=r.randint(0, 1), what=what, **dict(dict(dump=r.choice([0, 1, 1, 2]), flags=FL_PROGRAM, mode="code"), **kw))


NESTED = ("var g = [0, \"a\"]\nvar h\n"
          "function leaf(a)\n  g[0] = g[0] + 1\n  out(a)\n  return a\nend\nfunction bad(a)\n  out(\"bad\")\n  return a[9]\nend\n"
          "function deep(n, a)\n  var x = [n, a]\n  if (n > 0)\n    var y = nest(deep, n - 1, x)\n    emit(x, y)\n    return y\n  end\n  return x\nend\n"
          "function sum(n)\n  var l = \"l\" + n\n  if (n < 1)\n    return 0\n  end\n  return n + nest(sum, n - 1) + (l == \"l\" + n)\nend\n"
          "function two(a)\n  var i = 1\n  return [nest(leaf, a), i, nest(bad, a), nest(two2, i, a), i]\nend\nfunction two2(i, a)\n  i = i + 5\n  h = a\n  return h\nend\n"
          "function child(a)\n  emit(a, g)\n  wait(1)\n  g[1] = nest(leaf, a)\nend\nfunction starts(a)\n  new_thread(child, a)\n  wait(3)\n  halt()\n  return a\nend\n"
          "function loop(a)\n  var i\n  for (i = 0 to 4)\n    junk(40)\n    g[1] = nest(starts, [i, a])\n    emit(i, nest(leaf, i))\n  end\n  return g\nend\n"
          "function late(a)\n  var r = nest(leaf, a)\n  wait(2)\n  var q = nest(bad, r)\n  return [r, q]\nend\nfunction wrong(a)\n  nest(leaf)\n  out(\"not reached\")\nend\n"
          "function wrong2(a)\n  return nest(a, 1)\nend\nfunction none0(a)\n  return nest(none1)\nend\nfunction none1()\n  return\nend\n")
NESTED_FN = ["leaf", "bad", "sum", "two", "starts", "loop", "loop", "late", "wrong", "wrong2", "none0", "deep"]


def nested_case(r, what, n=6, **kw):
    """functions of the host that call functions of the script"""
    mode = kw.pop("by", None) or r.choice(["calls", "threads", "mixed"])
    ops = [INIT]
    for _ in range(n):
        f = r.choice(NESTED_FN)
        a = [I(r.randint(0, 4)), r.choice([S("s"), NONE, FB(0x3FC00000)])][2 - (2 if f == "deep" else 1) if f != "sum" else 0:]
        a = [I(r.randint(0, 4))] if f == "sum" else a
        if mode == "calls" or (mode == "mixed" and r.random() < 0.5):
            ops.append(call(f, *a))
        else:
            ops.append(spawn(f, *a))
            for _ in range(r.choice([0, 1, 2, 4])):
                ops.append(op(r.choice([4, 4, 4, 5, 6, 7]), n=r.choice([1, 3, 10, 50, 100000])))
    ops += [op(18, n=r.choice([7, 1000])), call("leaf", I(9))]
    return Case(NESTED, ops, opt=r.randint(0, 1), what=what, **dict(dict(dump=r.choice([0, 1, 1, 2]), h=r.choice([0, 0, 1536]), flags=FL_PROGRAM, mode="code"), **kw))


@prop
def C15(ck):
    r = ck.rng("handlers")
    kinds = OTHERS
    cases = []
    # every operator on every pair of kinds with handlers for some of them
    pairs = [(a, o, b) for o in ("+", "-", "*", "/", "==", "%", "<", "and") for a in kinds for b in kinds]
    if not ck.thorough:
        r.shuffle(pairs)
        pairs = pairs[:2600]
    for k, part in enumerate(chunks(pairs, 60)):
        h = r.choice([31, 511, 511, 0, r.randint(0, 511)])
        cases.append(calls_case(OTHERS_DEF, ["%s %s %s" % p for p in part], "operators with handlers", opt=k % 2, h=h, inputs=[S("in")], dump=0, flags=FL_PROGRAM))
    # index and member handlers
    es = ["%s[%s]" % (c, i) for c in ("arr", "fv", '"st"', "none", "2.5", "id(7)", "mk(3)", "(arr)") for i in
          ("0", "1", "2", "-1", '"k"', '"long key"', "none", "1.5", "arr", "fv")]
    es += ["%s.%s" % (c, m) for c in ("arr", "fv", "vs", "v0", "vi", "arr2", "vf") for m in ("x", "length", "name", "y", "z9", "lengthy", "len", "Length", "length_2", "a_length", "lengths.length")]
    for k, part in enumerate(chunks(es, 30)):
        for h in (0, 32, 128, 160, 511):
            cases.append(calls_case(OTHERS_DEF + 'var vs = "st"\nvar v0\nvar vi = 5\nvar vf = 1.5\n', part, "element and member handlers", opt=k % 2, h=h, inputs=[S("in")], dump=0))
    ss = ["  %s[%s] = %s\n" % (c, i, v) for c in ("arr", "fv", "gs", "gn") for i in ("0", "5", '"k"', "none", "1.5") for v in ("1", '"v"', "arr")]
    ss += ["  %s.%s = %s\n" % (c, m, v) for c in ("arr", "fv", "gs", "gn") for m in ("x", "length", "name", "lengthy", "len") for v in ("1", "arr")]
    for k, part in enumerate(chunks(ss, 26)):
        for h in (0, 64, 256, 511):
            t = OTHERS_DEF + 'var gs = "str"\nvar gn\n' + "".join("function t%d()\n%s  emit(arr, fv, gs, gn)\nend\n" % (i, s) for i, s in enumerate(part))
            cases.append(Case(t, [INIT] + [call("t%d" % i) for i in range(len(part))], opt=k % 2, h=h, dump=0, what="assignment handlers"))
    ck.traces_stage("handlers", cases)
    ck.traces_stage("many host functions", [wide_case(r, k) for k in range(ck.n(60, 400))], cfg="TraceWide.cfg")
    # values through the boundary
    cases = []
    vals = [I(x) for x in B_INTS] + [FB(x) for x in B_BITS] + [S(x) for x in B_STRS] + [NONE]
    t = ("var g\nfunction echo(a)\n  g = a\n  out(a)\n  return a\nend\nfunction pick3(a, b, c)\n  emit(c, b, a)\n  return b\nend\n"
         "function pick6(a, b, c, d, e, f)\n  emit(a, b, c, d, e, f)\n  emit(f, e, d, c, b, a)\n  return [a, b, c, d, e, f]\nend\n"
         "function viaget(i)\n  var x = get(i)\n  emit(x, id(x), id([x]))\n  return x\nend\nfunction none0()\n  return\nend\n"
         "function early(a)\n  var x = 5\n  if (a)\n    return \"early\"\n  end\nend\n")
    for part in chunks(vals, 12):
        ops = [INIT]
        for v in part:
            ops += [call("echo", v), spawn("echo", v), op(4, n=100000), op(4, n=1), call("early", v)]
        cases.append(Case(t, ops, dump=1, opt=r.randint(0, 1), what="values through the boundary"))
    for part in chunks(vals, 20):
        cases.append(Case(t, [INIT] + [call("viaget", I(i)) for i in range(len(part))] + [call("none0")], inputs=part, dump=1, what="values from the host"))
    for _ in range(ck.n(30, 200)):
        ops = [INIT]
        for _ in range(15):
            n = r.choice([0, 1, 3, 3, 6, 6, 7])
            a = [r.choice(vals) for _ in range(n)]
            f = {0: "none0", 1: "echo", 3: "pick3", 6: "pick6"}.get(n, "pick6")
            if r.random() < 0.1:
                f = r.choice(["echo", "pick3", "nosuch", "pick6"])
            ops.append((call if r.random() < 0.6 else spawn)(f, *a))
            if r.random() < 0.4:
                ops.append(op(4, n=r.choice([3, 100000])))
        cases.append(Case(t, ops, dump=r.choice([1, 2]), opt=r.randint(0, 1), flags=FL_PROGRAM, mode="code", what="argument lists"))
    # argument counts of host calls, direct and through variables
    for k in range(0, 40, 4):
        es = []
        for n in range(k, k + 4):
            args = ", ".join(r.choice(['"s%d"' % i, str(i), "[%d]" % i, "none", "%d.5" % i]) for i in range(n))
            es += ["emit(%s)" % args, "id(emit)(%s)" % args, "[emit(%s), 1]" % args, "emit(%s) + emit(%s)" % (args, args)]
        es = [e for e in es if "id(emit)(" not in e]
        tt = "var e = emit\n" + "".join("function t%d()\n  var l = emit\n  l(0)\n  return %s\nend\nfunction v%d()\n  return %s\nend\n" %
                                        (i, x, i, x.replace("emit(", "e(")) for i, x in enumerate(es))
        cases.append(Case(tt, [INIT] + [call(q + str(i)) for i in range(len(es)) for q in "tv"], dump=0, opt=k // 4 % 2, what="argument counts"))
    # argument lists beyond a byte
    for n in (255, 256, 257, 300):
        t = ("var e = emit\nfunction f(%s)\n  emit(a0, a1, a%d)\n  return a%d\nend\nfunction main()\n  var x = emit(%s)\n  e(%s)\n  return f(%s)\nend\n" %
             (", ".join("a%d" % i for i in range(n)), n - 2, n - 1, ", ".join(str(i) for i in range(n)), ", ".join("\"s%d\"" % i for i in range(n)), ", ".join("[%d]" % i for i in range(n))))
        a = [r.choice([I(i), S("s%d" % i), NONE]) for i in range(n)]
        cases.append(Case(t, [INIT, call("main"), call("f", *a), spawn("f", *a), op(4, n=1000), call("f", *a[:-1]), call("f", *(a + [I(1)]))], dump=1, opt=n % 2, limit=30, what="long argument lists"))
    ck.traces_stage("boundary", cases)
    ck.traces_stage("values of the machine", [passed_case(r, "values of the machine") for _ in range(ck.n(120, 1200))])
    ck.traces_stage("calls made by host functions", [nested_case(r, "calls made by host functions") for _ in range(ck.n(120, 1200))])

    def stage(k):
        r = ck.rng("random", k)
        cases = []
        for i in range(ck.n(300, 600)):
            t, g = gen.program(r, odd=r.choice([0.05, 0.25]), member=1.0, globs=(1, 4), setg=2, call=0.7, vars=r.choice([0, 0.5]))
            ops = [INIT, call("main")] + host_calls(r, g, 5)
            if r.random() < 0.3:
                ops += [op(11), INIT, call("main")]
            cases.append(Case(t, ops, opt=r.randint(0, 1), h=r.choice([511, 511, 0, r.randint(0, 511)]), dump=1, what="handlers in programs"))
        ck.traces_stage("random programs %d" % k, cases)
    rounds(ck, 500, stage)


# ---------------------------------------------------------------------- C16
DIRS = [(), ("a",), ("a", "b"), ("lib",), ("lib", "c.d"), (), ("a",), ("a", "b"), ("lib",), ("d.nano",), ("d.nano", "m.nano"), ("a b", "c"), (".h",), ("x.", "..y"),
        ("a", "a"), ("a", "b", "a"), ("f1.nano",)]


def rel_path(r, frm, to, fancy):
    """a path of file to (dir, name) from directory frm"""
    i = 0
    while i < len(frm) and i < len(to[0]) and frm[i] == to[0][i]:
        i += 1
    parts = [".."] * (len(frm) - i) + list(to[0][i:])
    if fancy and r.random() < 0.3:
        parts = r.choice([["."] + parts, parts + ["."], [".", "."] + parts])
    if fancy and r.random() < 0.15 and frm and i == len(frm):
        parts = ["..", frm[-1]] + parts
    if fancy and r.random() < 0.1 and to[0] and parts and parts[-1] == to[0][-1]:
        parts = parts + ["..", to[0][-1]]
    sep = "/"
    s = sep.join(parts + [to[1]])
    if fancy and r.random() < 0.1 and "/" in s:
        s = s.replace("/", "//", 1)
    return s


def import_case(r, nfiles, edges, fancy=True, damage=None, opt=None, **kw):
    """files 0..n-1, file i importing the files of edges[i] in order"""
    names = []
    for i in range(nfiles):
        d = r.choice(DIRS) if i else r.choice([(), (), ("a",), ("a", "b")])
        n = (d, "m.nano" if i == 0 else r.choice(["f%d.nano", "f%d.nano", "f%d", "f%d.x.y", ".f%d", "f%d.nano.nano", "f %d.", "m.nano", "same.nano", "M.nano", "same.Nano", "SAME.nano"]))
        if "%" in n[1]:
            n = (d, n[1] % i)
        # no file where another has a directory
        paths = [q + (x,) for q, x in names]
        if n in names or d[:1] == ("f1.nano",) and i == 1 or any(n[0][:len(q)] == q or q[:len(n[0]) + 1] == n[0] + (n[1],) for q in paths):
            n = (("q%d" % i,), "f%d.nano" % i)
        names.append(n)
    files = []
    for i in range(nfiles):
        lines = []
        imps = ['import "%s"' % rel_path(r, names[i][0], names[j], fancy) for j in edges[i]]
        body = []
        body.append("var g%d = %s" % (i, r.choice(["%d" % (i * 10), '"g%d"' % i, "out(\"init %d\")" % i, "K%d + 1" % r.randrange(nfiles),
                                                    "h%d(%d)" % (r.randrange(nfiles), i)])))
        body.append("const K%d = %s" % (i, r.choice(["%d" % (100 + i), "%d" % i, "K%d" % i if False else "%d" % (i + 7)])))
        body.append("function h%d(x)\n  return x * 2 + %d\nend" % (i, i))
        body.append("function f%d(n)\n  out(%d)\n  g%d = n\n  if (n > 0)\n    return f%d(n - 1) + K%d\n  end\n  return %s\nend" %
                    (i, i, r.randrange(nfiles), r.randrange(nfiles), r.randrange(nfiles), r.choice(["0", "g%d" % r.randrange(nfiles), "none[0]", "1 - 1"])))
        # imports anywhere between the declarations
        if r.random() < 0.6:
            lines = imps + body
        else:
            lines = body + imps
            r.shuffle(lines)
        if r.random() < 0.3:
            lines.insert(r.randint(0, len(lines)), r.choice(["", "# comment", "\n\n"]))
        if i == 0:
            lines.append("function main()\n  f0(2)\n  out(K0)\n  return f%d(3)\nend" % (nfiles - 1))
        if damage and damage[0] == i:
            lines.insert(r.randint(0, len(lines)), damage[1])
        files.append(("/".join(names[i][0] + (names[i][1],)).encode(), ("\n".join(lines) + r.choice(["\n", ""])).encode()))
    # directories and files that nobody imports
    if r.random() < 0.3:
        files.append((b"other/unused.nano", b"this is not a program ("))
    if damage and len(damage) > 2:
        files.append(damage[2])
    ops = [INIT, call("main")] + [call("f%d" % i, I(r.randint(0, 2))) for i in range(min(nfiles, 3))]
    return Case("", ops, files=files, flags=FL_FILES | kw.pop("flags", 0), opt=r.randint(0, 1) if opt is None else opt,
                dump=1, what=kw.pop("what", "imports"), **kw)


DAMAGES = ['import "nosuch.nano"', 'import "M.NANO"', 'import "F1.nano"', 'import "empty.nano"', 'import "../nosuch"', 'import ""', 'import "a"', 'import "a/"', 'import "."', 'import ".."', 'import "lib/nosuch/f"',
           "var g0 = 1", "function main()\nend", "const K1 = 5", "var x = nosuchname", "function f0()\nend", "function bad(\nend", "x = 5", "@", "\"",
           "function q()\n  return nosuch(1)\nend", "const C = 1 / 0", "import 5", "import", "import nosuch", 'import "m.nano" x', "function f1(a)\nend", "var h2"]


@prop
def C16(ck):
    import itertools
    r = ck.rng("graphs")
    cases = []
    # every graph of three files
    choices = [(), (0,), (1,), (2,), (0, 1), (1, 2), (2, 1), (1, 0, 2), (1, 1), (2, 2, 0)]
    for e0 in [(1, 2), (2, 1), (1,), (2,), (1, 2, 1), (0, 1, 2)]:
        for e1 in choices:
            for e2 in choices:
                if not ck.thorough and r.random() < 0.4:
                    continue
                seen, todo = {0}, [0]
                ed = [e0, e1, e2]
                while todo:
                    for j in ed[todo.pop()]:
                        if j not in seen:
                            seen.add(j)
                            todo.append(j)
                if len(seen) < 3:
                    continue
                cases.append(import_case(r, 3, ed, what="every graph of three files"))
    # files that are not reached
    for _ in range(ck.n(30, 100)):
        ed = [r.choice([(), (1,), (2,)]), r.choice([(), (0,), (1,)]), r.choice([(), (0,), (2,)])]
        cases.append(import_case(r, 3, ed, what="files out of reach"))
    ck.traces_stage("every small graph", cases)
    ck.traces_stage("many files", many_files(ck.thorough))

    def stage(k):
        r = ck.rng("random", k)
        cases = []
        for i in range(ck.n(350, 700)):
            n = r.randint(1, 7)
            ed = [tuple(r.randrange(n) for _ in range(r.choice([0, 1, 2, 3]))) for _ in range(n)]
            # most files are reached
            for j in range(1, n):
                if r.random() < 0.9:
                    p = r.randrange(j)
                    ed[p] = ed[p] + (j,)
            c = import_case(r, n, ed, what="random graph")
            cases.append(c)
        for i in range(ck.n(350, 700)):
            n = r.randint(1, 4)
            ed = [tuple(j for j in range(n) if r.random() < 0.5) for _ in range(n)]
            for j in range(1, n):
                ed[r.randrange(j)] += (j,)
            d = (r.randrange(n), r.choice(DAMAGES))
            if d[1] == 'import "a"':
                d += ((b"a/", b""),)
            if d[1] == 'import "empty.nano"':
                d += ((b"empty.nano", b""),)
            cases.append(import_case(r, n, ed, damage=d, what="an error in a file"))
        # whole random programs cut into files
        for i in range(ck.n(60, 150)):
            c = several_files(r)
            cases.append(c)
        ck.traces_stage("random graphs %d" % k, cases)
    rounds(ck, 600, stage)


def several_files(r, **kw):
    """a random program cut into files that import each other"""
    flags = kw.pop("flags", 0)
    t, g = gen.program(r, funcs=(2, 5), globs=(1, 4), call=1, **kw)
    parts = split_decls(t)
    n = r.randint(2, 4)
    groups = [[] for _ in range(n)]
    for x in parts:
        groups[r.randrange(n)].append(x)
    names = [(r.choice(DIRS), "p%d.nano" % j) for j in range(n)]
    fs = []
    for j in range(n):
        imps = ['import "%s"\n' % rel_path(r, names[j][0], names[q], True) for q in range(n) if q != j and (q == j + 1 or r.random() < 0.4)]
        x = imps + groups[j]
        fs.append(("/".join(names[j][0] + (names[j][1],)).encode(), "".join(x).encode("latin1") or b"\n"))
    return Case("", [INIT, call("main")] + host_calls(r, g), files=fs, flags=FL_FILES | flags, opt=r.randint(0, 1), what="a program in several files")


def split_decls(t):
    """the top level declarations of generated text"""
    out, cur = [], []
    for l in t.split("\n"):
        if l and not l[0].isspace() and l.split()[0].lower() in ("function", "var", "const") and cur and not cur_open(cur):
            out.append("\n".join(cur) + "\n")
            cur = []
        cur.append(l)
    out.append("\n".join(cur) + "\n")
    return out


def cur_open(cur):
    """inside of a function"""
    return any(x.lower().startswith("function") for x in cur) and not any(x == "end" for x in cur)


# ---------------------------------------------------------------------- C17
def trig_samples(r, n):
    """samples of sine, cosine and tangent whose scaled value is far from a rounding boundary"""
    import math, struct
    f32 = lambda x: struct.unpack("<f", struct.pack("<f", x))[0]
    out = []
    while len(out) < n:
        f = r.choice(["sin", "cos", "tan"])
        x = f32(r.choice([r.uniform(-7, 7), r.uniform(-1, 1), r.uniform(-1000, 1000), float(r.randint(-50, 50)), r.uniform(-1e6, 1e6),
                          r.choice([0.5, 1.0, 1.5707963, 3.1415927, 0.78539816, 2.0, -1.0, 100.0, 10.0])]))
        if x == 0:
            continue
        y = getattr(math, f)(x)
        q = y * 8192
        if abs(q) > 2e6 or abs(q - math.floor(q) - 0.5) < 0.02 or abs(q) < 0.1:
            continue
        a, b = F(x), F(y)
        out.append((f, x, {"f": f, "x": [a[1], a[2]], "y": [b[1], b[2]]}))
    return out


ONE_ARG = ["abs", "sin", "cos", "tan", "len", "chr", "round", "ceil", "floor", "sqrt", "new_array", "wait"]
TWO_ARG = ["min", "max", "bitand"]


@prop
def C17(ck):
    r = ck.rng("args")
    vals = [I(x) for x in B_INTS] + [FB(x) for x in B_BITS] + [S(x) for x in B_STRS] + [NONE]
    for x in (0.5, 1.5, 2.5, -0.5, -1.5, -2.5, 0.49999997, 8388607.5, 4194303.5, -8388607.5, 2.0, 3.0, 4.0, 9.0, 1e20, 2.25, 0.25, -0.0, 1.9999999, 1e-40):
        vals.append(F(x))
    defs = []
    for f in ONE_ARG + TWO_ARG + ["new_thread", "id"]:
        defs.append("var v_%s = %s\n" % (f, f))
    for f in ONE_ARG:
        if f == "new_array":
            body = "  var a = %s(x)\n  out(len(a))\n  out(a[0])\n  return a[len(a) - 1]\n"
        else:
            body = "  return %s(x)\n"
        defs.append("function d_%s(x)\n%send\nfunction i_%s(x)\n  var l = v_%s\n%send\n" % (f, body % f, f, f, body % "l"))
    for f in TWO_ARG:
        defs.append("function d_%s(x, y)\n  return %s(x, y)\nend\nfunction i_%s(x, y)\n  return v_%s(x, y)\nend\n" % (f, f, f, f))
    text = "".join(defs)
    ops = []
    big = lambda f, v: (f == "new_array" and ((v[0] == 1 and v[1] > 6000) or v[0] == 2 and v[1] > 0x4580)) or \
                       (f == "wait" and v[0] == 2 and (v[1] & 0x7fff) >= 0x4f00)
    for f in ONE_ARG:
        if f in ("sin", "cos", "tan"):
            continue
        for v in vals:
            if not big(f, v) and not (f == "new_array" and v[0] == 2 and (v[1] & 0x7fff) >= 0x4580):
                for d in "di":
                    ops.append(call("%s_%s" % (d, f), v))
    pair_vals = vals if ck.thorough else r.sample(vals, 26)
    for f in TWO_ARG:
        for a in pair_vals:
            for b in pair_vals:
                ops.append(call("%s_%s" % (r.choice("di"), f), a, b))
    cases = [Case(text, [INIT] + part, dump=0, opt=k % 2, what="arguments of built-in functions") for k, part in enumerate(chunks(ops, 120))]
    ck.traces_stage("arguments", cases)
    # sine, cosine, tangent
    cases = []
    for k in range(ck.n(12, 100)):
        sm = trig_samples(r, 40)
        t, o = "", [INIT]
        for i, (f, x, s) in enumerate(sm):
            t += "function t%d(x)\n  var g = %s\n  return [round(%s(x) * 8192.0), round(g(x) * 8192.0)]\nend\n" % (i, f, f)
            v = F(x)
            o.append(call("t%d" % i, I(int(x)) if x == int(x) and abs(x) < 2**24 and r.random() < 0.5 else v))
        cases.append(Case(t, o, dump=0, trig=[s for _, _, s in sm], what="sine, cosine, tangent"))
    o = [call("%s_%s" % (d, f), v) for d in "di" for f in ("sin", "cos", "tan")
         for v in [I(0), F(0.0), F(-0.0), FB(0x7f800000), FB(0xff800000), FB(0x7fc00000), NONE, S(""), S("1")]]
    cases.append(Case(text, [INIT] + o, dump=0, what="sine, cosine, tangent"))
    # every kind of value, number of arguments, direct and indirect
    es = []
    for f in ONE_ARG + TWO_ARG + ["new_thread"]:
        for a in OTHERS:
            if f in ("sin", "cos", "tan") and a in ("7", "(-3)", "2.5", "mk(1)", "mk(2)", "foo()"):
                continue
            if f in TWO_ARG:
                es += ["%s(%s, 1)" % (f, a), "%s(2, %s)" % (f, a)]
            else:
                es.append("%s(%s)" % (f, a))
        for n in range(0, 5):
            args = ["2", "foo", '"q"', "arr", "1"][:n]
            es.append("id(v_%s) == none or (v_%s(%s) == none)" % (f, f, ", ".join(args)))
            es.append("v_%s(%s)" % (f, ", ".join(reversed(args))))
    es += ["new_thread(foo)", "new_thread(one, 1)", "new_thread(one)", "new_thread(one, 1, 2)", "new_thread(abs, 1)", "new_thread()", "new_thread(one, [1, 2])",
           "new_thread(fv)", "v_new_thread(foo)", "v_new_thread(one, \"x\")", "v_new_thread(one)", "wait(1)", "wait(0)", "wait(-1)", "v_wait(2)"]
    skip = ("v_sin(2", "v_cos(2", "v_tan(2", "v_sin(1", "v_cos(1", "v_tan(1")
    es = [e for e in es if not any(s in e for s in skip)]
    base = OTHERS_DEF + "".join("var v_%s = %s\n" % (f, f) for f in ONE_ARG + TWO_ARG + ["new_thread"]) + "function one(a)\n  out(a)\nend\n"
    for k, part in enumerate(chunks(es, 40)):
        c = calls_case(base, part, "kinds and numbers of arguments", opt=k % 2, inputs=[S("in")], dump=0)
        c.ops.append(op(4, n=100000))
        c.ops.append(op(4, n=100000))
        cases.append(c)
    # waiting and starting threads
    for w in ["0", "1", "2", "5", "-1", "-2147483647", "1.5", "0.5", "-3.5", "2.999"]:
        t = ("var w = wait\nfunction one(a, b)\n  emit(a, b)\n  w(%s)\n  out(\"late\")\nend\nfunction main()\n  out(new_thread(one, [1], \"b\"))\n"
             "  out(wait(%s))\n  out(2)\n  var q = new_thread\n  out(q(one, none, abs))\n  return wait(1)\nend\n" % (w, w))
        cases.append(Case(t, [INIT, spawn("main")] + [op(4, n=10000)] * 14, dump=1, what="waiting"))
    ck.traces_stage("kinds and counts", cases)

    def stage(k):
        r = ck.rng("random", k)
        ops = []
        for _ in range(ck.n(1500, 6000)):
            f = r.choice([x for x in ONE_ARG if x not in ("sin", "cos", "tan", "new_array", "wait")] + TWO_ARG)
            n = 2 if f in TWO_ARG else 1
            ops.append(call("%s_%s" % (r.choice("di"), f), *[scalar(r, r.choice("iiiffffsn" if f != "bitand" else "iiiiiiif")) for _ in range(n)]))
        ck.traces_stage("random arguments %d" % k, [Case(text, [INIT] + p, dump=0, what="random arguments") for p in chunks(ops, 100)])
    rounds(ck, 500, stage)


# ---------------------------------------------------------------------- C18
LINES = [
    "function main()\n  var a = 1\n  var b = 2 + a\n\n\n  out(a)\n  out(b)\n\n  if (a == 1)\n    out(3)\n\n  else\n    out(4)\n  end\n  while (a < 3)\n    # note\n    a += 1\n  end\n  return a\nend\n",
    "function f(x)\n  return x\nend\n\nfunction main()\n  var i\n  for (i = 0 to 3)\n    out(f(i))\n  end\n  var s = f(1) + f(2)\n  f(s)\n  f(s)\n  return\nend\n",
    "var g = 5\nvar h = g + 1\n\nfunction e()\nend\nfunction main()\n  e()\n  e()\n  g = h\n  g += 1\n  var a = [1, 2]\n\n  a[0] = 5\n  a[1] = a\n  out(a)\nend\n",
]


@prop
def C18(ck):
    r = ck.rng("lines")
    cases = []
    for t in LINES:
        cases.append(Case(t, [INIT, spawn("main"), op(12, t=2)], opt=0, dump=1, what="lines visited"))
        cases.append(Case(t, [INIT, spawn("main"), op(12, t=2)], opt=1, dump=1, what="lines visited"))
        for o in (0, 1):
            cases.append(Case(t, [INIT, call("main")], opt=o, flags=FL_PROGRAM, mode="form", dump=1, what="function ranges"))
    # a fault on each line of a layout, in every construct
    for k, ctx in enumerate(FAULT_AT):
        for mode in ("call", 16):
            fs = FAULTS if ck.thorough else r.sample(FAULTS, 14)
            for part in chunks(fs, 10):
                cases.append(fault_case(ck, part, ctx.replace("(%s)", "(\n\n %s\n)") if r.random() < 0.4 and "(%s)\n" in ctx else ctx, r.randint(0, 1), 0, mode))
    for lines in (1, 2, 254, 255, 256, 257, 1000, 4000):
        t = "\n" * lines + "function main()\n  out(1)\n\n  var x = none[0]\nend\n"
        cases.append(Case(t, [INIT, call("main"), spawn("main"), op(12)], opt=0, dump=1, what="large line numbers"))
    for n in (40, 270):
        cases += [Case("", [INIT, call("main"), spawn("main")] + [op(12)] * (1 - o), files=fs, flags=FL_FILES, opt=o, dump=1, limit=60, what="lines of many files")
                  for fs in ([import_chain(n, 0)] if n < 100 else [import_star(n)]) for o in (0, 1)]
    ck.traces_stage("lines", cases)
    # every small body step by step; two files whose line numbers coincide
    bodies = shapes.bodies_to(2) + r.sample(shapes.blocks(3), ck.n(500, 1736)) + [shapes.random_block(r, r.randint(4, 7)) for _ in range(ck.n(200, 4000))]
    cases = shapes.shape_cases(r, bodies, "lines of every small body", const=0.1, opts=(0,))
    for c in cases:
        c.ops = [INIT] + [x for o in c.ops[1:] for x in (dict(o, o=3), op(12))]
    for i in range(len(shapes.TWO_FILES)):
        for shift in range(-12, 13):
            for swap in (0, 1):
                for opt in (0, 1):
                    cases.append(Case("", [INIT, call("main"), spawn("main")] + [op(12)] * (1 - opt), files=shapes.two_files(shift, i, swap), flags=FL_FILES, opt=opt, dump=1,
                                      what="lines of two files"))
    ck.traces_stage("lines of every small body and of two files", cases)

    def stage(k):
        r = ck.rng("random", k)
        cases = []
        for i in range(ck.n(380, 800)):
            t, g = gen.program(r, budget=600, vars=1.5, blank=0.15, odd=r.choice([0, 0.05]), globs=(0, 5), nest=4)
            cases.append(Case(t, [INIT, call("main")] + host_calls(r, g), opt=r.randint(0, 1), dump=1, what="names and values"))
        for i in range(ck.n(300, 600)):
            t, g = gen.program(r, budget=400, blank=0.2, odd=r.choice([0, 0.1]), layout=0.2)
            cases.append(Case(t, [INIT, spawn("main"), op(12, t=2)], opt=0, dump=1, what="lines visited"))
        for i in range(ck.n(60, 150)):
            t, g = gen.program(r, funcs=(2, 5), globs=(1, 4), call=1, vars=0.5, odd=0.1)
            parts = split_decls(t)
            h = r.randint(1, max(1, len(parts) - 1))
            fs = [(b"m.nano", ('import "d/x.nano"\n' + "".join(parts[:h])).encode("latin1")), (b"d/x.nano", "".join(parts[h:]).encode("latin1") or b"\n")]
            cases.append(Case("", [INIT, call("main"), spawn("main"), op(12)], files=fs, flags=FL_FILES, opt=0, dump=1, what="lines of several files"))
        for i in range(ck.n(80, 200)):
            t, g = gen.program(r, budget=600, threads=r.choice([0, 1]))
            cases.append(Case(t, [INIT, call("main")], opt=r.randint(0, 1), flags=FL_PROGRAM, mode="form", dump=1, what="function ranges"))
        ck.traces_stage("random programs %d" % k, cases)
    rounds(ck, 600, stage)


# ---------------------------------------------------------------------- C19
def frame_text(na, nl, blocks):
    """a recursive function with na arguments and nl locals in nested blocks"""
    a = ["a%d" % i for i in range(na)]
    t = ["function f(%s)" % ", ".join(["n"] + a), "  var keep = n * 100"]
    ind = "  "
    for b in range(blocks):
        t.append(ind + "if (n >= 0)")
        ind += "  "
        for i in range(nl):
            t.append(ind + "var l%d_%d" % (b, i))
            t.append(ind + "out(l%d_%d)" % (b, i))
            t.append(ind + "l%d_%d = %s + %d" % (b, i, a[i % na] if na else "n", i))
    if na or 1:
        t.append(ind + "if (n > 0)")
        t.append(ind + "  out(1000 + f(%s) + keep)" % ", ".join(["n - 1"] + ["%s + 1" % x for x in a]))
        t.append(ind + "end")
    for b in reversed(range(blocks)):
        for i in range(nl):
            t.append(ind + "out(l%d_%d)" % (b, i))
        ind = ind[:-2]
        t.append(ind + "end")
    for x in a:
        t.append("  out(%s)" % x)
    t.append("  return keep%s" % ("" if not a else " + " + a[-1]))
    t.append("end")
    t.append("function main()\n  var q = 77\n  var z = [1, f(%s), q]\n  out(z)\n  out(q)\n  return f(%s) - f(%s)\nend\n" %
             tuple(", ".join([str(d)] + [str(i) for i in range(na)]) for d in (2, 1, 0)))
    return "\n".join(t)


@prop
def C19(ck):
    r = ck.rng("frames")
    cases = []
    for na in ck.n([0, 1, 2, 5], list(range(0, 9))):
        for nl in ck.n([0, 1, 3], list(range(0, 6))):
            for bl in ck.n([0, 1, 3], list(range(0, 5))):
                if na * 1 + nl * bl > 26:
                    continue
                t = frame_text(na, nl, bl)
                cases.append(Case(t, [INIT, call("main")], opt=(na + nl) % 2, dump=1, what="frames"))
                if (na + nl + bl) % 2:
                    cases.append(Case(t, [INIT, spawn("main"), spawn("main"), op(18, n=r.choice([1, 2, 3, 7]))], opt=nl % 2, flags=FL_PROGRAM, mode="code",
                                      dump=0, what="frames in two threads"))
    # large frames: offsets beyond a byte
    for n in ck.n([127, 128, 130, 255, 256, 257], [126, 127, 128, 129, 130, 254, 255, 256, 257, 300, 600]):
        a = ", ".join("a%d" % i for i in range(n))
        t = ("function f(%s)\n  var l = a0\n  out(a0)\n  out(a%d)\n  a%d = 5\n  out(a%d)\n  return a%d\nend\nfunction main()\n  var k = 9\n  out(f(%s))\n  return k + (1000 - f(%s)) * 2\nend\n"
             % (a, n - 1, n - 2, n - 1, n - 2, ", ".join(str(i) for i in range(n)), ", ".join(str(i) for i in range(n))))
        cases.append(Case(t, [INIT, call("main")], opt=n % 2, dump=1, what="many arguments"))
        t = ("function g()\n  var u\n  out(u)\n  u = 3\n  return u\nend\nfunction main()\n" + "".join("  var l%d = %d\n" % (i, i) for i in range(n)) +
             "  if (1)\n    var m = 4\n    l0 = g()\n    out(m)\n  end\n  out(l%d)\n  out(l0)\n  l%d = g()\n  return l%d\nend\n" % (n - 1, n - 1, n - 2))
        cases.append(Case(t, [INIT, call("main")], opt=n % 2, dump=1, what="many locals"))
    for n in (1020, 1030):
        t = ("function g()\n  var u = 1\n  var v\n  return v\nend\nfunction main(a)\n  if (a)\n    var k = 3\n    out(k)\n  else\n" + "".join("    var l%d = %d\n" % (i, i) for i in range(n)) +
             "    out(g())\n    out(l%d)\n    out(7 - l%d)\n  end\n  return a\nend\n" % (n - 1, n - 2))
        cases.append(Case(t, [INIT, call("main", I(0)), call("main", I(1))], opt=n // 10 % 2, dump=0, what="many locals"))
    # stacks far deeper than the model's: what they show does not depend on the depth
    for nl in (0, 1, 4, 12):
        t = ("function down(n, s)\n  var t = s\n" + "".join("  var l%d\n" % i for i in range(nl)) + "  if (n == 0)\n    return t\n  end\n  var r = down(n - 1, s)\n" +
             "".join("  if (not (l%d == none))\n    out(\"bad\")\n  end\n" % i for i in range(nl)) + "  if (not (t == s) or not (r == s))\n    out(\"bad\")\n  end\n  return r\nend\n"
             "function main()\n  var a = \"a\"\n  var b = [down(get(0), \"x\"), a]\n  out(b)\n  return down(get(0), a) + b[1]\nend\n")
        for ops in ([call("main")], [spawn("main"), op(18, n=7)], [spawn("main"), spawn("main"), op(18, n=1001)]):
            cases.append(Case(t, [INIT] + ops, opt=nl % 2, inputs=[I(4)], real={"inputs": [I(9000)]}, dump=1, limit=60, what="deep stacks"))
    ck.traces_stage("frames", cases)
    bodies = shapes.bodies_to(2) + r.sample(shapes.blocks(3), ck.n(900, 1736)) + [shapes.random_block(r, r.randint(4, 9)) for _ in range(ck.n(500, 6000))]
    ck.traces_stage("locals of every small body", shapes.shape_cases(r, bodies, "locals of every small body", const=0.15, opts=()))

    def stage(k):
        r = ck.rng("random", k)
        cases = []
        for i in range(ck.n(450, 900)):
            t, g = gen.program(r, funcs=(2, 6), call=2, recurse=0.8, nest=4, ret=0.15, fun=1.2, vars=r.choice([0, 0.3]), ifs=1.5, odd=0.02)
            cases.append(Case(t, [INIT, call("main")] + host_calls(r, g), opt=r.randint(0, 1), dump=1, what="calls and blocks"))
        for i in range(ck.n(160, 400)):
            t, g = gen.program(r, funcs=(2, 5), call=2, recurse=0.8, nest=3, threads=r.choice([0, 1]), ret=0.1, budget=500)
            ops = [INIT, spawn("main"), spawn("main")] + ([spawn(r.choice([f for f in g.fns if not f.args] or [g.main]).name)])
            for _ in range(r.choice([0, 20, 60])):
                ops.append(op(r.choice([5, 6, 7]), t=r.randint(2, 4), n=r.randint(1, 8)))
            ops.append(op(18, n=r.choice([1, 2, 3, 5, 11])))
            cases.append(Case(t, ops, opt=r.randint(0, 1), flags=FL_PROGRAM, mode="code", dump=r.choice([0, 2]), what="calls in several threads"))
        ck.traces_stage("random programs %d" % k, cases)
    rounds(ck, 600, stage)


# ---------------------------------------------------------------------- C20
@prop
def C20(ck):
    cases = []
    for t in big_programs():
        if "299" in t and "l299" not in t and "g299" not in t and "f299" not in t:
            continue
        for o in (0, 1):
            cases.append(Case(t, [], opt=o, flags=FL_PROGRAM | FL_NORUN, mode="form", limit=30, what="large program"))
    cases.append(Case(huge_program(), [], opt=1, flags=FL_PROGRAM | FL_NORUN, mode="form", limit=60, what="huge program"))
    for na in (0, 1, 3):
        for nl in (0, 1, 2):
            for bl in (0, 1, 2):
                cases.append(Case(frame_text(na, nl, bl), [INIT, call("main")], opt=(na + bl) % 2, flags=FL_PROGRAM, mode="form", dump=2, what="frames"))
    for t in LINES + DEBUG + SLICES + list(SCHED.values()) + GC_PROGRAMS:
        for o in (0, 1):
            cases.append(Case(t, [], opt=o, flags=FL_PROGRAM | FL_NORUN, mode="form", what="fixed programs"))
    ck.traces_stage("fixed programs", cases)
    r = ck.rng("bodies")
    bodies = shapes.bodies_to(3) + [shapes.random_block(r, r.randint(4, 9)) for _ in range(ck.n(500, 6000))]
    ck.traces_stage("every small body", shapes.shape_cases(r, bodies, "every small body", opts=(), flags=FL_PROGRAM | FL_NORUN, mode="form"))

    def stage(k):
        r = ck.rng("random", k)
        cases = []
        for i in range(ck.n(420, 900)):
            kw = r.choice([{}, {"threads": 1.0}, {"member": 1.0}, {"nest": 5, "loops": 2, "ifs": 2}, {"ret": 0.4, "dead": 0.5}, {"constcond": 0.6},
                           {"fun": 3, "call": 1.5}, {"funcs": (4, 8)}, {"arr": 4}, {"odd": 0.3}])
            t, g = gen.program(r, budget=900, **kw)
            run = r.random() < 0.5
            cases.append(Case(t, [INIT, call("main")] if run else [], opt=r.randint(0, 1), flags=FL_PROGRAM | (0 if run else FL_NORUN) | r.choice([0, 0, FL_SERIAL]),
                              mode="form", dump=r.choice([1, 2]), h=r.choice([0, 511]), what="random program"))
        ck.traces_stage("random programs %d" % k, cases)
    rounds(ck, 600, stage)


# ---------------------------------------------------------------------- C21
CLI_HELPERS = ("function out_(x)\n  puts(\"\" + x)\n  return none\nend\nfunction id_(x)\n  return x\nend\n"
               "function mk_(k)\n  if (k == 1)\n    return 7\n  end\n  if (k == 2)\n    return 1.5\n  end\n  if (k == 3)\n    return \"hs\"\n  end\n"
               "  if (k == 4)\n    return [1, \"e\"]\n  end\n  return none\nend\nfunction junk_(n)\n  return 0\nend\n")
CLI_BARE = {"abs": 1, "min": 2, "max": 2, "bitand": 2, "len": 1, "chr": 1, "round": 1, "ceil": 1, "floor": 1, "sqrt": 1, "new_array": 1,
            "wait": 1, "out": 1, "id": 1, "mk": 1, "junk": 1}


def renamed(text, names):
    """the same text with other names, strings left alone"""
    import re
    parts = re.split(r'("[^"\n]*")', text)
    rx = re.compile(r"(?<![A-Za-z0-9_.])(%s)(?![A-Za-z0-9_])" % "|".join(names))
    return "".join(x if i % 2 else rx.sub(r"\1_", x) for i, x in enumerate(parts))


def cli_text(r, **kw):
    t, g = gen.program(r, emits=0, inputs=0, **kw)
    return CLI_HELPERS + renamed(t, ["out", "id", "mk", "junk"])


def comp_text(r, **kw):
    t, g = gen.program(r, emits=0, inputs=0, **kw)
    pre = "".join("function %s_(%s)\n  return x0\nend\n" % (f, ", ".join("x%d" % i for i in range(n))) for f, n in sorted(CLI_BARE.items()))
    return pre + renamed(t, sorted(CLI_BARE))


IO_PROGRAMS = [
    "function main()\n  var c = getc()\n  var n = 0\n  while (not (c == -1))\n    putc(c)\n    n += 1\n    c = getc()\n  end\n  out_(getc())\n  return n\nend\n",
    "function main()\n  var s = gets()\n  var k = 0\n  while (k < 6)\n    puts(\"[\" + s + \"]\")\n    out_(len(s))\n    s = gets()\n    k += 1\n  end\n  return s\nend\n",
    "function main()\n  puts(gets() + gets())\n  putc(getc())\n  print(gets())\n  putc(getc() + 1)\n  return [gets()]\nend\n",
    "var first = gets()\nvar c = getc()\nfunction main()\n  puts(first)\n  out_(c)\n  return first + c\nend\n",
    "function main()\n  puts(\"100% sure %s %d %n %% %5c\")\n  print(\"%s%s\")\n  puts(\"%\")\n  puts(gets())\n  print(gets())\n  puts(\"\")\n  puts(\"\t\x01 \xe4\xff\x7f\")\n  putc(37)\n  return \"%d%s%n\"\nend\n",
    "function main()\n  var f = gets\n  var p = puts\n  p(f())\n  p = putc\n  p(65)\n  p(321)\n  p(-191)\n  p(10)\n  return f\nend\n",
]
IO_INPUTS = [b"", b"\n", b"a", b"a\n", b"one\ntwo\nthree\n", b"one\n\n\ntwo", b"x" * 78 + b"\nq\n", b"x" * 79 + b"\nq\n", b"x" * 80 + b"\nq\n",
             b"x" * 81 + b"\nq", b"y" * 158, b"y" * 200 + b"\n\n", b"\xff\xfe\x80z\n\t \r\n", b"tail no newline", b"\n\nx" * 5,
             b"%s%n%d\n%5\n%%\n", b"100%"]
CLI_RESULTS = ["0", "1", "-1", "2147483647", "-2147483647 - 1", "1.5", "-0.25", "100000.0", "0.0", "\"\"", "\"text\"", "\"a b\"", "\"%s%d%n\"", "\"50%\"", "none", "[1]", "new_array(3)",
               "main", "f", "1 == 1", "\"s\" + 1 + 2.5 + none", "1 / 2", "7 % 4", "1.0 / 4"]
CLI_FAULTS = ["1 / (f(0))", "none[0]", "[1][2]", "putc(\"x\")", "puts(5)", "puts(none)", "putc(1.5)", "print([1])", "f(1)(2)", "len(3)", "g1(3)", "abs(\"x\")",
              "gp()", "gp(1, 2)", "gs(1)", "gc(1)", "gr(1)", "new_array(-1)", "\"s\" - 1"]


@prop
def C21(ck):
    r = ck.rng("cli")
    M = b"m.nano"
    run = lambda text, stdin=b"", **kw: CliCase("run", [(M, text.encode("latin1"))], [M], stdin=stdin, **kw)
    cases = []
    for t in IO_PROGRAMS:
        for s in IO_INPUTS:
            cases.append(run(CLI_HELPERS + t, s, what="input and output"))
    for x in CLI_RESULTS:
        cases.append(run("var g = 1\nfunction f(x)\n  return x\nend\nfunction main()\n  puts(\"run\")\n  return %s\nend\n" % x, what="result " + x))
        cases.append(run("var g = %s\nfunction f(x)\n  return x\nend\nfunction main()\n  return g\nend\n" % x, what="result " + x))
    defs = "var gp = puts\nvar gs = gets\nvar gc = getc\nvar gr = rand\nvar g1 = 5\nfunction f(x)\n  return x\nend\n"
    for x in CLI_FAULTS:
        cases.append(run(defs + "function main()\n  puts(\"before\")\n  putc(46)\n  f(%s)\n  puts(\"after\")\n  return 1\nend\n" % x, what="a fault: " + x))
        cases.append(run(defs + "var late = f(%s)\nfunction main()\n  puts(\"never\")\n  return 1\nend\n" % x, what="a fault at the beginning: " + x))
    for t in ["", "\n", "# nothing", "var x = 1\n", "function Main()\nend\n", "function main(a)\n  return a\nend\n", "function main()\nend\n", "function main()\n  return\nend\n",
              "function main()\n  return rand() >= 0 and rand() < 8388608\nend\n", "function main()\n  wait(3)\n  new_thread(f, 1)\n  puts(\"x\")\n  return 2\nend\nfunction f(x)\n  puts(\"thread\")\nend\n",
              "function main()\n  return x\nend\n", "function main(\nend\n", "x\n", "\"", "function main()\n  puts(1, 2)\nend\n", "function main()\n  out(1)\nend\n",
              "function puts(x)\nend\nfunction main()\nend\n", "function main()\n  var putc = 5\n  return putc\nend\n", "import \"nosuch\"\nfunction main()\nend\n"]:
        cases.append(run(t, what="small programs"))
    for f, n in (("putc", 1), ("getc", 0), ("puts", 1), ("gets", 0), ("rand", 0), ("print", 1), ("abs", 1), ("new_thread", 0), ("wait", 1)):
        for k in range(4):
            cases.append(run("function main()\n  putc(65)\n  %s(%s)\n  return 1\nend\n" % (f, ", ".join(["66", "\"b\"", "none"][:k])), what="numbers of arguments"))
    # several sources, missing and unreadable ones
    A, B = b"function main()\n  puts(\"a\")\n  return helper(2)\nend\n", b"var g = puts(\"init b\")\nfunction helper(x)\n  return x * 3\nend\n"
    fs = [(b"a.nano", A), (b"d/b.nano", B), (b"empty", b""), (b"bad.nano", b"function (\n"), (b"imp.nano", b"# first\nimport \"d/b.nano\"\n"), (b"dir/", b"")]
    for roots in ([b"a.nano", b"d/b.nano"], [b"d/b.nano", b"a.nano"], [b"a.nano"], [b"d/b.nano"], [], [b"nosuch"], [b"a.nano", b"nosuch"], [b"empty"], [b"a.nano", b"empty", b"d/b.nano"],
                  [b"a.nano", b"bad.nano", b"d/b.nano"], [b"a.nano", b"d/b.nano", b"bad.nano"], [b"a.nano", b"imp.nano"], [b"imp.nano", b"a.nano", b"./d/b.nano"],
                  [b"a.nano", b"a.nano", b"d/b.nano", b"d/../d/b.nano"], [b"dir", b"a.nano"], [b"d/nosuch/../b.nano", b"a.nano"], [b"a.nano/x", b"a.nano"]):
        cases.append(CliCase("run", fs, list(roots), what="sources " + repr(roots)))
    ck.traces_stage("driver: inputs, results, faults", cases, module="TraceCli", main="source/driver")

    cases = []
    slow = (b"mandelbrot", b"pi.", b"alphabet", b"uppercase", b"sieve", b"prime", b"test4", b"rand2")
    for f, b in repo_scripts("tests/xpass", "tests/xfail", "examples/misc"):
        if len(b) < 4000 and not f.startswith(slow) and not re.search(rb"\brand *\(", b):
            cases.append(CliCase("run", [(f, b)], [f], what="script " + f.decode()))
    if cases:
        ck.traces_stage("driver: scripts of the repository", cases, module="TraceCli", main="source/driver")

    def compiled(cs):
        """what the library compiles from the same text"""
        twins = [Case("", [], opt=c.opt, flags=FL_PROGRAM | FL_NORUN | FL_FILES, files=c.files) for c in cs]
        lib.observe(lib.number(twins), lib.build())
        for c, t in zip(cs, twins):
            c.code = (t.obs.get("code", []), t.obs.get("listing", []))
        return cs

    def stage(k):
        r = ck.rng("random", k)
        cases = []
        for i in range(ck.n(260, 600)):
            t = cli_text(r, arr=0.5, odd=r.choice([0, 0.03]), budget=800)
            if r.random() < 0.15:
                t = mutate(r, t, 1)
            cases.append(run(t, what="random program"))
        ck.traces_stage("driver: random programs %d" % k, cases, module="TraceCli", main="source/driver")
        cases = []
        for i in range(ck.n(160, 400)):
            t = comp_text(r, odd=r.choice([0, 0.03]), blank=0.1)
            if r.random() < 0.2:
                t = mutate(r, t, 1)
            asked = "".join(x for x in "abd" if r.random() < 0.6)
            cases.append(CliCase("comp", [(M, t.encode("latin1"))], [M], opt=r.randint(0, 1), asked=asked, what="compiled"))
        for i in range(6):
            cases.append(CliCase("comp", [(M, comp_text(r).encode("latin1"))], [M], asked="abd"[i % 3], writable=False, what="output that cannot be written"))
        long = b"/".join([b"n" * 200] * 7) + b"/m.nano"
        cases.append(CliCase("comp", [(long, b"function main()\nend\n")], [long], asked="bd", what="a long path"))
        for roots in ([b"nosuch"], [M, b"nosuch"], []):
            cases.append(CliCase("comp", [(M, b"function main()\nend\n")], roots, what="sources"))
        ck.traces_stage("compiler: random programs %d" % k, compiled(cases), module="TraceCli", main="source/comp", cfg="TraceComp.cfg")
    rounds(ck, 500, stage)


# ---------------------------------------------------------------------- C22
# programs for objects that are used again: 0-2 run, 3-8 fail at various points of their compilation
USED = [
    "const K = 5\nvar g = [1, \"left\"]\nvar h = 7\nfunction go(a)\n  var l = a + K\n  g[0] = l\n  out(\"left\")\n  return l\nend\nfunction main()\n  var i = 0\n  while (1)\n    i = i + go(i)\n    h = [i, h]\n    if (i > 50)\n      i = 0\n      h = 1\n    end\n  end\nend\n",
    "var x\nvar y = \"later\"\nfunction helper(a, b)\n  return a / b\nend\nfunction go(a)\n  return helper(a, 0)\nend\nfunction main()\n  new_thread(main2)\n  wait(3)\n  x = go(4)\nend\nfunction main2()\n  halt()\n  y = y[0]\nend\n",
    "function go(a)\n  return [a, [a, \"str\"]]\nend\nfunction main()\n  return go(go)\nend\n",
    "const K = 9\nvar left = 1\nfunction go(a)\n  return (1 + (2 * (a - [3, go(\"text\" + ",
    "var left = 1\nfunction left2(a)\n  var b = a\n  if (b)\n    while (b)\n      return left + missing\n    end\n  end\nend\n",
    "import \"nosuch.txt\"\nfunction main()\nend\n",
    "var s = \"never closed\nfunction main()\nend\n",
    "const left = 4\nvar left = 5\nfunction main(a, a)\nend\n",
    "function main()\n  var a = " + "(" * 5000 + "1" + ")" * 5000 + "\nend\n",
    "",
]
USED_BAD = list(range(3, 10))
JUDGED = [
    "var g\nfunction main()\n  vars()\n  out(g)\n  g = \"new\"\n  var l\n  vars()\n  out(l)\n  l = [1, g]\n  vars()\n  return l\nend\nfunction go(a)\n  return main\nend\n",
    "const K = 2\nvar h = K + 1\nfunction helper(a)\n  return a * K\nend\nfunction main()\n  out(h)\n  wait(1)\n  out(helper(h))\n  h = h / 0\nend\nfunction go(a)\n  return a + h\nend\n",
    "function quiet(a)\n  out(a)\nend\nfunction go(a)\n  quiet(a)\n  quiet(2)\nend\nfunction main()\n  go(1)\n  if (1)\n    go(2)\n  end\nend\n",
    "function main()\n  return K\nend\n",
    "function main()\n  return g\nend\n",
    "function main()\n  out(1)\n  return helper(1, 2)\nend\n",
    "function main(a)\n  out(left)\nend\n",
    "var left\nconst go = 3\nfunction main()\n  return (1 + 2) * go\nend\n",
    "\n\nfunction main()\n  return 1 +\nend\n",
    "function main()\n  return 1 * * 2\nend\n",
]
JUDGE_OPS = [INIT, call("go", I(3)), spawn("main"), op(4, n=4), op(7), op(4, n=100), op(12), call("go", F(1.5)), op(18, n=9)]
JUDGE_SRC = [INIT, call("go", I(3)), spawn("main"), op(4, n=1000000), op(12), call("go", F(1.5)), op(18, n=1000000), spawn("main"), op(12)]


def judged(text, before, k, **kw):
    """the program in objects that were used, as the code that was compiled or as the source says"""
    flags = FL_USED | FL_TWICE | kw.pop("flags", 0)
    if k % 2:
        return Case(text.replace("vars()", "out(0)"), before + JUDGE_OPS, flags=flags | FL_PROGRAM, mode="code", dump=2, sides=USED, **kw)
    return Case(text, before + JUDGE_SRC, flags=flags, dump=1, sides=USED, **kw)


def beside(r, lines=12):
    """something done to other objects between the steps of a run"""
    fns = [("main", ()), ("go", (I(3),)), ("main2", ()), ("helper", (I(1), I(2)))]
    f, a = r.choice(fns)
    k = r.random()
    if k < 0.2:
        return op(70, p=r.randrange(len(USED)), n=r.randint(0, 1))
    if k < 0.35:
        return op(71, f, a, n=r.choice([1, 5, 40, 300]), t=int(f == "go" and r.random() < 0.5), p=r.choice([0, 0, 1536, 2047]))
    if k < 0.5:
        return op(72, n=r.choice([1, 7, 200]))
    if k < 0.65:
        return op(73, "main", (), n=r.choice([0, 1, 6, 100]), p=r.choice([0, 0, 1536]))
    if k < 0.8:
        return op(74, n=r.choice([1, 3, 50]))
    if k < 0.86:
        return op(75)
    if k < 0.94:
        return op(76, p=r.randint(1, lines))
    return op(r.choice([77, 78]))


def before(r, nsides):
    """something done to the objects before they are reset and used for the judged program"""
    k = r.random()
    if k < 0.45:
        return op(60, p=r.randrange(nsides), n=r.randint(0, 1))
    if k < 0.75:
        f, a = r.choice([("main", ()), ("go", (I(3),)), ("main", ())])
        return op(61, f, a, n=r.choice([1, 5, 40, 300]), t=int(f == "go"), p=r.choice([0, 0, 1536, 2047]))
    if k < 0.8:
        return op(64, t=r.randint(1, 2))
    if k < 0.86:
        return op(65, t=r.randint(1, 3))
    if k < 0.95:
        return op(r.choice([62, 63, 66, 67]))
    return beside(r)


@prop
def C22(ck):
    import json, os, tempfile
    r = ck.rng("histories")
    go = lambda o, once, n: op(o, "go" if once else "main", (I(2),) if once else (), n=n, t=int(once), p=1536)
    alphabet = [op(60, p=k, n=k % 2) for k in (0, 1, 3, 4, 5, 6, 7)] + [go(61, False, 30), go(61, True, 0), op(63), op(64, t=1), op(65, t=1), op(67),
                op(70, p=0, n=1), go(71, False, 20)]
    with tempfile.TemporaryDirectory(prefix="nv-reuse-") as d:
        p = os.path.join(d, "bad.ndjson")
        with open(p, "w") as f:
            f.write("".join("%d\n" % b for b in USED_BAD))
        hs = replayed(ck, "all lives of an object", "MCReuse", alphabet, ck.n(3, 4), env={"BAD": p}, limit=ck.n(2200, 30000))
    cases = []
    for i, (_, h) in enumerate(hs):
        cases.append(judged(JUDGED[r.choice([0, 0, 1, 1, 2, 7]) if i % 2 else i // 2 % len(JUDGED)], h, r.randint(0, 2), opt=r.randint(0, 1), flags=FL_NEWVM if i % 7 == 0 else 0,
                            h=r.choice([0, 0, 1536]), what="after a life of the objects"))
    ck.traces_stage("all lives of an object: replayed", cases)
    cases = []
    for i, t in enumerate(JUDGED):
        for k in range(len(USED)):
            for h in ([op(60, p=k, n=1)], [op(60, p=k, n=0), go(61, False, 50)], [op(60, p=k, n=1), op(60, p=k, n=1), go(61, True, 0)]):
                for o in (0, 1):
                    cases.append(judged(t, h, len(cases), opt=o, what="after one program"))
    ck.traces_stage("every program after every other", cases)
    ck.traces_stage("every program after every other, checked memory", cases[::5], variant="asan")
    # the globals of a machine are initialised again
    cases = []
    for i in range(ck.n(80, 500)):
        c = general(r, globs=(2, 8), setg=2, call=0.5, odd=0.0, budget=1500)
        c.ops = [c.ops[0], c.ops[1], INIT] + c.ops[1:] + ([INIT, INIT, spawn("main"), op(4, n=100000), INIT, call("main")] if i % 2 else [])
        cases.append(c)
    t = "var a\nvar b = 5\nvar c = a\nvar d = [b, a]\nfunction main(x)\n  emit(a, b, c, d)\n  a = x\n  b = [x]\n  c = d\n  d = 1\n  return a\nend\n"
    for o in (0, 1):
        cases.append(Case(t, [INIT, call("main", I(7)), INIT, call("main", I(8)), INIT, INIT, spawn("main", I(3)), op(4, n=100), INIT, op(4, n=100), call("main", S("z"))], opt=o, what="initialised again"))
    ck.traces_stage("initialised again", cases)
    # the same text many times, with another in between
    cases = []
    for k in range(len(USED)):
        for n in (40, 300) if k != 8 else (5,):
            h = [op(60, p=j, n=1) for _ in range(n) for j in (k, 0)] + [go(61, False, 10)]
            cases.append(judged(JUDGED[k % 2], h, k, limit=40, what="used many times"))
        cases.append(judged(JUDGED[0], [op(60, p=k, n=1)] + [go(61, bool(j % 2), 30) for j in range(300)], k, what="reset many times"))
    ck.traces_stage("used many times", cases)
    # limits count from nothing again
    many = "function main()\n  var x = 0\n" + ("  x = " + "x - " * 41 + "1\n") * 410 + "  return x\nend\n"
    cases = []
    for k, bad in enumerate(["function main()\n  return (1 + (2 * [3 - (\nend\n", "function main()\n  return " + "(" * 5000 + "\nend\n", "var g = " + "1 + " * 20000 + "1\n",
                             "function main()\n" + "if (1)\n" * 5000, "function main()\n  out(1 + f(2 - g[3 *\n"]):
        cases.append(judged(many if k % 2 == 0 else JUDGED[0], [op(60, p=0, n=1)] * (1 if k else 3), k, limit=40, what="limits"))
        cases[-1].sides = [bad.encode()]
    ck.traces_stage("limits after errors", cases)

    def stage(k):
        r = ck.rng("random", k)
        cases = []
        for i in range(ck.n(500, 1000)):
            sides = list(USED)
            for _ in range(3):
                t, g = small_program(r, strs=1)
                sides.append(t if r.random() < 0.6 else mutate(r, t, 1))
            # the judged program uses similar names
            t, g = gen.program(r, budget=600, globs=(0, 4), strs=1, threads=r.choice([0, 0, 1]), odd=0.02)
            if r.random() < 0.25:
                t = mutate(r, t, 1)
            pre = [before(r, len(sides)) for _ in range(r.randint(1, 8))]
            ops = [INIT, spawn("main")] + host_script(r, r.randint(2, 10), 4, g.fns, debug=0.2, lines=20, reset=0.05)
            out = []
            for x in ops:
                out.append(x)
                while r.random() < 0.4:
                    out.append(beside(r))
            c = Case(t, pre + out + [op(18, n=r.randint(1, 40))], opt=r.randint(0, 1), dump=r.choice([1, 2]), h=r.choice([0, 0, 1536]), sides=sides,
                     flags=FL_USED | FL_TWICE | FL_PROGRAM | r.choice([0, 0, FL_NEWVM, FL_SERIAL]), mode="code", what="used before, others beside")
            cases.append(c)
        for i in range(ck.n(350, 700)):
            # source semantics
            t, g = gen.program(r, budget=800, globs=(0, 5), strs=1, threads=r.choice([0, 0, 1]))
            u, _ = gen.program(r, budget=800, globs=(0, 5), strs=1)
            pre = [before(r, len(USED) + 2) for _ in range(r.randint(1, 5))] + [op(60, p=len(USED) + r.randint(0, 1), n=1)] * r.randint(0, 1)
            ops = []
            for x in [INIT, call("main")] + host_calls(r, g) + [spawn("main"), op(4, n=100000), op(4, n=100000)]:
                ops.append(x)
                while r.random() < 0.4:
                    ops.append(beside(r))
            cases.append(Case(t, pre + ops, opt=r.randint(0, 1), dump=1, sides=USED + [u, mutate(r, u, 1)], flags=FL_USED | FL_TWICE | r.choice([0, 0, FL_NEWVM, FL_SERIAL]),
                              h=r.choice([0, 1536]), what="used before, whole programs"))
        for i in range(ck.n(60, 150)):
            c = several_files(r, strs=1)
            c.flags |= FL_USED | FL_TWICE
            c.sides = [t.encode("latin1") for t in USED]
            c.ops = [before(r, len(USED)) for _ in range(r.randint(1, 5))] + list(c.ops)
            c.what = "used before, several files"
            cases.append(c)
        ck.traces_stage("random lives %d" % k, cases)
        ck.traces_stage("random lives %d, checked memory" % k, r.sample(cases, ck.n(90, 300)), variant="asan")
    rounds(ck, 500, stage)


# ---------------------------------------------------------------------- C23
# every construct once
ALL_SYNTAX = """import "lib.n"
const CN = 4
var gv = -1
var ga = [1, 2.5, "s", none]
function foo(x, y)
  return x + y * (2 - x) / 3 % 4
end
function main()
  var loc = foo(1, gv)
  ga[0] = not loc and 1 or gv < 2
  loc += 2
  ga.mem = loc.mem
  if (loc == 3)
    out(ga[0])
  else
    loc = ga[1][0] >= loc
  end
  while (loc > 1)
    loc -= 1
  end
  for (loc = 0 to 2)
    foo(loc, CN <= 2)
  end
  return
end
"""
BAD_TOKENS = [b"function", b"end", b"if", b"else", b"while", b"var", b"17", b"2.75", b"for", b"to", b"nosuch", b"(", b")", b",", b"const",
              b"\n", b"+", b"-", b"*", b"/", b"%", b"and", b"or", b"not", b"=", b"==", b"<", b">", b"<=", b">=", b"return", b"[", b"]",
              b"none", b'"a text"', b'""', b"import", b".", b"+=", b"&", b"\xe4", b'"open', b"{", b"'", b"WHILE", b"main", b"foo", b"CN",
              b"abs", b"ga", b"gv", b"", b"1 / 0", b"foo(1)", b"foo(1, 2, 3)", b"abs()", b"halt(1)", b"%s", b"%d%n", b"Nosuch_1"]


def token_changes():
    """every token of every construct replaced by, or followed by, every kind of token"""
    b = ALL_SYNTAX.encode("latin1")
    toks = [(m.start(), m.end()) for m in TOKEN.finditer(b)]
    for s, e in toks:
        for t in BAD_TOKENS:
            yield b[:s] + t + b[e:]
            if t:
                yield b[:e] + b" " + t + b" " + b[e:]
    for s, e in toks:
        yield b[:s]
        yield b[:e]
        yield b[:e] + b"\n"


def message_texts(r):
    """names of many lengths in every kind of message; line ends of every kind"""
    out = []
    for n in (1, 2, 63, 64, 255, 256, 500, 960, 980, 990, 1000, 1010, 1020, 1022, 1023, 1024, 1025, 1100, 3000):
        nm = "".join(r.choice("abcdefghijklmnopqrstuvwxyzABCDEFG_") for _ in range(n))
        nm = "q" + nm[1:] if n < 9 else "q_" + nm[2:]
        P = PRE[0]
        for t in ("out(%s)", "%s = 1", "%s[0] = 1", "%s.m = 1", "out(%s.m)", "for (%s = 0 to 1)\nend", "%s(1)", "%s 1", "var %s\nvar %s",
                  "loc 1 %s", "out(1 %s)", 'out(1 "%s")', "return 1 %s", "%s + 1", "loc = %s +", "var x = loc.%s[foo"):
            out.append(P + "function main()\n  var loc\n  %s\nend\n" % t.replace("%s", nm))
        for t in ("const %s", "const %s = gv\nfunction xx()\n  return %s\nend", "var %s\nvar %s", "function %s()\nend\nfunction %s()\nend",
                  "function xx(%s, %s)\nend", "function %s(a)\nend\nfunction xx()\n  %s()\nend", "function %s()\nend\nfunction xx()\n  %s(1)\nend",
                  "const %s = 1\nfunction xx()\n  %s = 2\nend", "const %s = 1\nfunction xx()\n  %s += 2\nend", "%s", '"%s"', "var %s = nosuch", "var %s = 1 / 0",
                  "import %s", 'import "%s"', 'var x = "%s', "var x %s", "const %s = 1\nvar xx = %s.m", "const %s = [1]\nvar xx = %s"):
            out.append(P + t.replace("%s", nm) + "\n")
    # where lines end
    body = ["var a = 1", "function main()", "  out(a)", "  out(nosuch)", "end"]
    for eol in ("\n", "\r\n", "\n\n", " \n", "\n\r", "# comment\n", "\t\n", "\n#\n"):
        for last in ("", eol, eol + eol, " ", "#", "# no more", "\r", "\t\n "):
            out.append(eol.join(body) + last)
            out.append(eol.join(body[:3]) + last)
            out.append(eol.join(body[:2]) + eol + "  out(nosuch)" + last)
            out.append(eol.join(["", ""] + body[2:]) + last)
            out.append("&" + eol.join(body) + last)
            out.append(eol.join(body) + last + "&")
            out.append(eol.join(body) + last + '"')
    for k in range(1, 256):
        if k != 10:
            out.append("var a\n  " + chr(k) + "\nvar b\n")
            out.append('var a = "' + chr(k) + '" ' + chr(k) + "\nvar b\n")
            out.append('var a\n"x' + chr(k) + 'y"\n')
            out.append("function main()\n  loc" + chr(k) + "\nend\n")
    return out


def import_texts():
    """errors in imported files and in imports"""
    bad = ["out(nosuch)", "nosuch = 1", "var m1", "x +", "1", "foo(1)", "main(1, 2)", "y[0] = 2", '"open', "&"]
    out = []
    for b in bad:
        for head in ("", "\n\n", "# one\n", 'import "d/c.n"\n'):
            for tail in ("", "\n", "\n\n#"):
                lib = head + "var m2\nfunction foo()\n  var m1\n  %s\nend" % b + tail
                for main in ('import "b.n"\nfunction main()\nend\n', 'var m3\nimport "d/c.n"\nimport "b.n"\nfunction main()\n  foo()\nend'):
                    out.append([(b"a.n", main.encode()), (b"b.n", lib.encode("latin1")), (b"d/c.n", b"# nothing\nvar m9 = 1")])
    for p in ("nosuch", "d", "d/", "./x", "../x", "b", "b.n ", " b.n", "%s", "%d", "", ".", "/", "d/../nosuch", "B.N", "\xe4", "e.n", "b.n/c"):
        for pre in ("", "\n", "var z = 1\n"):
            out.append([(b"a.n", (pre + 'import "b.n"\nimport "%s"\nvar y' % p).encode("latin1")), (b"b.n", b"var m2"), (b"d/c.n", b"var c"), (b"e.n", b"")])
            out.append([(b"a.n", b'import "b.n"\nvar y'), (b"b.n", (pre + 'import "%s"' % p).encode("latin1")), (b"d/c.n", b"var c"), (b"e.n", b"")])
    return out


@prop
def C23(ck):
    def case(t, o, what, files=None):
        if files is None and "\0" in t:
            t = t.replace("\0", "")
        return Case(t, [], opt=o, flags=FL_NORUN | FL_TEXT | (FL_FILES if files else 0), files=files, what=what)
    r = ck.rng("rules")
    ck.traces_stage("one error of every kind", [case(t, o, "one error") for t in rule_cases(r) for o in (0, 1)])
    ck.traces_stage("names, characters and line ends", [case(t, k % 2, "message") for k, t in enumerate(message_texts(r))])
    ck.traces_stage("imports", [case("", k % 2, "error in imports", f) for k, f in enumerate(import_texts())])
    toks = list(token_changes())
    if not ck.thorough:
        toks = r.sample(toks, 6000)
    lib = (b"lib.n", b"var from_lib = 1\n")
    ck.traces_stage("every token", [case("", k % 2, "a token changed", [(b"main.n", t), lib]) for k, t in enumerate(toks)])
    scopes = [scope_soup(r) for _ in range(ck.n(600, 4000))]
    ck.traces_stage("names in nested blocks", [case(t, k % 2, "names in nested blocks") for k, t in enumerate(scopes)])

    def stage(k):
        r = ck.rng("mutants", k)
        cases = []
        for i in range(ck.n(1200, 4000)):
            t, g = small_program(r, layout=0.15, blank=0.15)
            cases.append(case(mutate(r, t, 1), r.randint(0, 1), "changed program"))
        ck.traces_stage("changed programs %d" % k, cases)
    rounds(ck, 600, stage)


# ---------------------------------------------------------------------- C24
KEYS = ["up", "down", "left", "right", "escape", "space"]
SCREEN_HEAD = "var g = 0\nvar h = 1.5\nvar q0\nvar q1\nvar q2\n"


class Drawing:
    """random programs that draw"""

    def __init__(self, r, threads=0.3, faults=0.1):
        self.r, self.faults = r, faults
        self.w, self.h = r.choice([(1, 1), (3, 5), (5, 3), (8, 8), (7, 12), (16, 4), (2, 13), (12, 9), (1, 9), (9, 1), (20, 11), (11, 17)])
        self.nthreads = r.choice([1, 1, 2]) if r.random() < threads else 0
        self.depth = 0

    def num(self, n, wide=0.15):
        r = self.r
        k = r.random()
        if k < wide:
            return r.choice(["-1", "-2", str(n), str(n + 1), str(-n), str(2 * n), "-3000", "400", "-0.5", "%d.75" % n, "-1.25", "0.99"])
        if k < 0.65:
            return str(r.randint(0, max(0, n - 1)))
        if k < 0.72:
            return "%d.%d" % (r.randint(0, n), r.choice([0, 25, 5, 999]))
        if k < 0.84:
            return "(rand() %% %d)" % max(1, n)
        if k < 0.94:
            return r.choice(["g", "(g %% %d)" % max(1, n), "(g - 2)", "(g * 3)", "h"])
        return r.choice(["abs(%d)" % -r.randint(0, n), "(%d + g)" % r.randint(0, n), "min(%d, g)" % n])

    def whole(self, n):
        r = self.r
        if r.random() < 0.2:
            return r.choice(["-1", str(n), str(-n), str(3 * n), "-300", "700", str(n + 1)])
        return r.choice([str(r.randint(0, n)), str(r.randint(0, n)), str(r.randint(-n, 2 * n)), "g", "(rand() %% %d)" % max(1, 2 * n), "(%d - g)" % n])

    def odd(self):
        return self.r.choice(['"text"', "none", "[1, 2]", "main", "plot", '""', "cls()", "flip()", 'keydown("f")'])

    def call(self, f, args):
        r = self.r
        if args and r.random() < 0.04:
            args = list(args)
            args[r.randrange(len(args))] = self.odd()
        if r.random() < 0.03:
            return ["var p%d = %s" % (self.depth, f), "p%d(%s)" % (self.depth, ", ".join(args))] if self.fresh("p%d" % self.depth) else ["%s(%s)" % (f, ", ".join(args))]
        return ["%s(%s)" % (f, ", ".join(args))]

    def fresh(self, n):
        if n in self.names:
            return False
        self.names.add(n)
        return True

    def stmt(self):
        r, w, h = self.r, self.w, self.h
        k = r.random()
        if k < 0.2:
            return self.call("plot", [self.num(w), self.num(h)])
        if k < 0.36:
            return self.call("line", [self.whole(w), self.whole(h), self.whole(w), self.whole(h)])
        if k < 0.5:
            return self.call("circle", [self.num(w), self.num(h), self.num(max(w, h) // 2 + 1, wide=0.08)])
        if k < 0.62:
            return self.call("setrgb", [r.choice(["0", "255", "256", "-1", "127", "1", "511", "2.9", "-0.5", "300.5", "65535", "g", "(rand() % 256)", str(r.randint(0, 255))]) for _ in range(3)])
        if k < 0.67:
            return ["cls()"]
        if k < 0.77:
            return ["flip()"]
        if k < 0.83:
            return self.call("sleep", [r.choice(["0", "1", "2", "5", "10", "3.7", "-4", "g", "-0.5", "1000", "(rand() % 20)", "h"])])
        if k < 0.86:
            return [r.choice(["g = g + 1", "g += 3", "g = rand() % 7", "g = 0 - g", "h = h + 0.5", "h = h * -1.5", "wait(2)"])]
        if k < 0.93:
            key = r.choice(KEYS + ["Up", "", "spacebar", "f1"]) if r.random() < 0.8 else None
            q = "keydown(%s)" % ('"%s"' % key if key is not None else r.choice(["1", "none", "h", "\"le\" + \"ft\"", "[\"up\"]"]))
            body = self.block(1)
            return ["if (%s)" % r.choice([q, q, "not " + q, q + " == 1"])] + body + (["else"] + self.block(1) if r.random() < 0.4 else []) + ["end"]
        if self.depth < 2 and k < 0.97:
            v = "i%d" % self.depth
            self.names.add(v)
            self.depth += 1
            b = self.block(2)
            self.depth -= 1
            return ["for (q%d = 0 to %d)" % (self.depth, r.randint(1, 4))] + b + ["  g = q%d" % self.depth, "end"]
        return ["flip()"]

    def block(self, n):
        out = []
        for _ in range(self.r.randint(1, n)):
            out += ["  " + l for l in self.stmt()]
        return out

    def text(self):
        r = self.r
        o = [SCREEN_HEAD]
        if r.random() < 0.15:
            o.append("var first = %s\n" % r.choice(["rand()", "plot(0, 0)", "sleep(5)", "video(4, 4)", "flip()", "setrgb(1, 2, 3)", "keydown(\"up\")"]))
        if r.random() < self.faults:
            fault = r.choice(["none[0]", "1 / (g * 0)", "[1][g + 9]", "len(3)", "g(1)", "\"s\" - 1", "new_array(-1)"])
        else:
            fault = None
        self.names = set()
        body = []
        if r.random() < 0.2:
            body += self.block(3)
        if r.random() < 0.95:
            body.append("  video(%d, %d)" % (self.w, self.h))
        for k in range(self.nthreads):
            body.append("  new_thread(worker, %d)" % r.randint(0, 5))
        body += self.block(r.choice([3, 8, 14]))
        if r.random() < 0.12:
            w, h = r.choice([(4, 4), (self.h, self.w), (self.w + 1, self.h), (30, 2)])
            body += ["  video(%d, %d)" % (w, h)] + self.block(4)
        if r.random() < 0.1:
            w, h = r.choice([("0", "5"), ("5", "0"), ("-3", "4"), ("4", "-3"), ("-4", "-4"), ("100000", "100000"), ("65536", "65536"), ("46341", "46341"), ("4.0", "4"), ("none", "3"), ("2147483647", "2")])
            body += ["  video(%s, %s)" % (w, h)] + self.block(4)
        if fault:
            body.append("  g = %s" % fault)
            body += self.block(3)
        body.append("  flip()")
        if r.random() < 0.35:
            at = r.randint(0, len(body) - 1)
            loop = self.block(4)
            body += ["  while (1)"] + ["  " + l for l in loop] + ["    flip()", "    sleep(%d)" % r.choice([1, 3, 7, 20]), "  end"]
        o.append("function main()\n%s\n  return 0\nend\n" % "\n".join(body))
        if self.nthreads:
            self.names = set()
            o.append("function worker(n)\n%s\n  plot(n, n)\n  flip()\nend\n" % "\n".join(self.block(6)))
        return "".join(o)


def screen_cases():
    """each function with what is within, at and beyond the edges"""
    out = []
    prog = lambda body, pre="": SCREEN_HEAD + pre + "function main()\n" + "".join("  %s\n" % l for l in body) + "end\n"
    for w, h in ((1, 1), (2, 7), (7, 2), (6, 6), (13, 5), (5, 13), (1, 8), (8, 1)):
        b = ["video(%d, %d)" % (w, h), "flip()"]
        n = 1
        for x in sorted({-1, 0, w // 2, w - 1, w, w + 1}):
            for y in sorted({-1, 0, h // 2, h - 1, h}):
                b += ["setrgb(%d, %d, %d)" % (n, 2 * n, 255 - n), "plot(%d, %d)" % (x, y)]
                n += 1
        out.append(("points", prog(b + ["flip()"])))
        for j in range(4):
            b = ["video(%d, %d)" % (w, h)]
            ends = [(0, 0, w, h), (w, h, 0, 0), (0, h, w, 0), (w, 0, 0, h), (0, 0, w, 0), (0, 0, 0, h), (w - 1, h // 2, -1, h // 2), (w // 2, h - 1, w // 2, -1), (-3, -2, w + 4, h + 1),
                    (w + 3, -1, -2, h + 5), (w // 2, h // 2, w // 2, h // 2), (0, 0, 2 * w, h), (0, 0, w, 2 * h), (-500, 3, 900, 2), (1, -400, 2, 800), (w, h // 2, 0, h // 3)]
            for e in ends[j * 4:j * 4 + 4]:
                b += ["cls()", "setrgb(9, 8, 7)", "line(%d, %d, %d, %d)" % e, "flip()"]
            out.append(("lines", prog(b)))
        for j in range(3):
            b = ["video(%d, %d)" % (w, h)]
            for r in [(0, 1, 2), (3, 4, 5), (9, 30, -2)][j]:
                for x, y in ((w // 2, h // 2), (0, 0), (w, h), (-2, h // 2), (w // 2, h + 1)):
                    b += ["cls()", "circle(%d, %d, %d)" % (x, y, r), "flip()"]
            out.append(("discs", prog(b)))
    for r in range(0, 12):
        out.append(("discs", prog(["video(27, 27)", "circle(13, 13, %d)" % r, "flip()"])))
    out.append(("steep", prog(["video(17, 17)"] + [l for i in range(17) for l in ("line(8, 8, %d, 0)" % i, "line(8, 8, %d, 16)" % i, "line(0, %d, 8, 8)" % i, "line(16, %d, 8, 8)" % i)] + ["flip()"])))
    every = ["plot(%s, 1)", "plot(1, %s)", "line(0, 0, %s, 3)", "line(%s, 0, 3, 3)", "line(0, %s, 3, 3)", "line(0, 0, 3, %s)", "circle(%s, 2, 2)", "circle(2, %s, 2)", "circle(2, 2, %s)",
             "setrgb(%s, 1, 2)", "setrgb(1, %s, 2)", "setrgb(1, 2, %s)", "sleep(%s)", "keydown(%s)", "video(%s, 4)", "video(4, %s)"]
    for e in every:
        for v in ("none", "\"s\"", "[1]", "main", "cls", "2", "2.5", "-2.5", "0.0", "-1"):
            out.append(("a value of every kind", prog(["video(5, 4)", "setrgb(40, 50, 60)", "circle(3, 3, 1)", "flip()", e % v, "plot(3, 0)", "flip()", "sleep(2)", "flip()"])))
    for v in ("0, 5", "5, 0", "-3, 4", "4, -3", "-4, -4", "100000, 100000", "65536, 65536", "2147483647, 2147483647", "46341, 46341", "2, 2147483647", "0, 0", "-2147483647 - 1, 2"):
        out.append(("sizes", prog(["video(5, 4)", "circle(2, 2, 1)", "flip()", "video(%s)" % v, "plot(1, 1)", "plot(4, 3)", "circle(2, 2, 50)", "line(0, 0, 50, 30)", "cls()", "line(0, 0, 4, 3)", "flip()"])))
        out.append(("sizes", prog(["video(%s)" % v, "cls()", "plot(1, 1)", "circle(2, 2, 50)", "flip()", "video(3, 2)", "plot(1, 1)", "flip()"])))
    out.append(("nothing before video", prog(["setrgb(1, 2, 3)", "cls()", "plot(0, 0)", "line(0, 0, 5, 5)", "circle(0, 0, 4)", "flip()", "video(3, 3)", "flip()", "plot(1, 1)", "flip()"])))
    out.append(("video again", prog(["video(6, 3)", "circle(3, 1, 1)", "flip()", "video(3, 6)", "flip()", "plot(2, 5)", "flip()", "video(6, 3)", "flip()", "video(9, 9)", "plot(8, 8)", "flip()"])))
    for n in ("0", "1", "7", "-1", "-100", "2.9", "-2.9", "1000"):
        for k in (0, 3):
            b = ["video(2, 2)", "flip()"] + ["sleep(%d)" % k] * (k > 0) + ["sleep(%s)" % n, "flip()", "sleep(%s)" % n, "sleep(%s)" % n, "plot(1, 1)", "flip()"]
            out.append(("sleep", prog(b)))
        out.append(("sleep", prog(["video(2, 2)", "plot(0, 0)", "flip()"], "var s = sleep(%s)\nvar t = 5\n" % n)))
    b = ["video(1, 1)"]
    for i in range(40):
        b += ["g = rand()", "setrgb(g, g / 256, g / 65536)", "plot(0, 0)", "flip()"]
    out.append(("random numbers", prog(b)))
    for k in KEYS + ["UP", "", "x", "upx", "dow"]:
        b = ["video(4, 1)", "setrgb(1, 1, 1)"]
        for i in range(8):
            b += ["cls()", "if (keydown(\"%s\"))" % k, "  plot(1, 0)", "end", "if (keydown(\"%s\") == 0)" % k, "  plot(2, 0)", "end", "if (keydown(\"%s\") == none)" % k, "  plot(3, 0)", "end", "flip()", "sleep(%d)" % (i % 3)]
        out.append(("keys", prog(b)))
    return out


SCREEN_FAILS = ["", "# nothing\n", "var x = 1\n", "function main(a)\nend\n", "function main()\n  video(3, 3)\n  flip()\n  plot(1)\nend\n", "function main()\n  video(2, 2)\n  x = 1\nend\n",
                "function main()\n  putc(1)\nend\n", "function main(\nend\n", "import \"nosuch\"\nfunction main()\nend\n", "function plot(x)\nend\nfunction main()\nend\n",
                "var g = video(3, 3)\nvar h = flip()\nvar b = none[0]\nvar k = flip()\nfunction main()\n  plot(1, 1)\n  flip()\nend\n",
                "var b = [1][2]\nfunction main()\n  video(2, 2)\n  flip()\nend\n",
                "function main()\n  video(2, 2)\n  flip()\n  new_thread(bad)\n  sleep(3)\n  plot(0, 0)\n  flip()\nend\nfunction bad()\n  wait(1)\n  sleep(2)\n  plot(1, 1)\n  flip()\n  var x = none\n  x[1] = 2\nend\n",
                "function main()\n  video(2, 2)\n  new_thread(w, 1)\n  new_thread(w, 2)\n  var i = 0\n  while (i < 5)\n    plot(i, 0)\n    flip()\n    sleep(i)\n    i += 1\n  end\nend\nfunction w(n)\n  var i = 0\n  while (i < 3)\n    setrgb(n, i, 7)\n    plot(n - 1, 1)\n    flip()\n    sleep(n * 3)\n    i += 1\n  end\nend\n",
                "function main()\n  var p = plot\n  video(2, 2)\n  p(1, 1)\n  flip()\n  p(1)\n  flip()\nend\n", "function main()\n  video(2, 2)\n  var f = flip\n  f()\n  f(1)\nend\n",
                "function main()\nend\n", "function main()\n  return 5\nend\n"]


@prop
def C24(ck):
    r = ck.rng("screen")
    M = b"m.nano"
    ck.model_stage("what the drawing rules guarantee", "MCScreen")
    keys = lambda r: [r.choice([0, 63, 1, 2, 4, 8, 16, 32, r.randint(0, 63)]) for _ in range(r.choice([1, 3, 7]))]
    case = lambda text, **kw: ScreenCase([(M, text.encode("latin1"))], [M], **kw)
    cases = [case(t, keys=[1, 62, 2, 61, 4, 59, 8, 55, 16, 47, 32, 31, 0, 63], what=w) for w, t in screen_cases()]
    cases += [case(t, what="small programs") for t in SCREEN_FAILS]
    for f in ("cls", "rand", "video", "plot", "flip", "setrgb", "circle", "line", "sleep", "keydown", "abs"):
        for k in range(6):
            a = ", ".join(["2", "1", "3", "0", "1"][:k])
            cases.append(case("var g\nfunction main()\n  video(3, 3)\n  flip()\n  %s(%s)\n  flip()\nend\n" % (f, a), what="numbers of arguments"))
            cases.append(case("var g = %s\nfunction main()\n  video(3, 3)\n  flip()\n  g(%s)\n  flip()\nend\n" % (f, a), what="numbers of arguments"))
    for nowin in ((1,), (2,), (1, 2), (2, 3)):
        for a, b in ((3, 9), (9, 3), (5, 5)):
            cases.append(case(SCREEN_HEAD + "function main()\n  video(%d, %d)\n  circle(2, 2, 2)\n  flip()\n  video(%d, %d)\n  cls()\n  plot(0, 0)\n  plot(%d, %d)\n  circle(4, 4, 30)\n  flip()\n  video(4, 4)\n  plot(3, 3)\n  flip()\nend\n"
                              % (a, a, b, b, b - 1, b - 1), nowin=nowin, what="a window that cannot be opened"))
    A, B = b"function main()\n  draw(2)\n  flip()\nend\n", b"var g = video(4, 4)\nfunction draw(x)\n  circle(x, x, x)\nend\n"
    fs = [(b"a.nano", A), (b"d/b.nano", B), (b"empty", b""), (b"imp.nano", b"import \"d/b.nano\"\n")]
    for roots in ([b"a.nano", b"d/b.nano"], [b"d/b.nano", b"a.nano"], [b"a.nano"], [b"d/b.nano"], [], [b"nosuch"], [b"a.nano", b"nosuch"], [b"empty"], [b"imp.nano", b"a.nano"]):
        cases.append(ScreenCase(fs, list(roots), what="sources " + repr(roots)))
    ck.traces_stage("functions, edges, failures", cases, module="TraceScreen", main="source/driver_sdl")
    checked = [c for c in cases if c.what in ("sizes", "a window that cannot be opened", "video again", "points", "nothing before video", "steep") or "lines" in c.what or "discs" in c.what]
    ck.traces_stage("edges, checked memory", checked, module="TraceScreen", main="source/driver_sdl", variant="asan")

    # every line and disc around small screens
    cases = []
    for w, h, d in ck.n([(4, 3, 1)], [(4, 3, 1), (3, 5, 2), (6, 6, 1), (1, 1, 3)]):
        for x in range(-d, w + d + 1):
            for y in range(-d, h + d + 1):
                cases.append(case("function main()\n  var i\n  var j\n  video(%d, %d)\n  for (i = %d to %d)\n    for (j = %d to %d)\n      cls()\n      setrgb(i * 9, j * 9, 77)\n      line(%d, %d, i, j)\n      flip()\n    end\n  end\nend\n"
                                  % (w, h, -d, w + d + 1, -d, h + d + 1, x, y), what="every line"))
                cases.append(case("function main()\n  var i\n  var j\n  video(%d, %d)\n  for (i = -1 to %d)\n    cls()\n    circle(%d, %d, i)\n    flip()\n  end\nend\n"
                                  % (w, h, ck.n(8, 14), x, y), what="every disc"))
    ck.traces_stage("every line and disc of small screens", cases, module="TraceScreen", main="source/driver_sdl")

    def stage(k):
        r = ck.rng("random", k)
        cases = []
        for i in range(ck.n(1600, 2000)):
            nowin = () if r.random() < 0.93 else (r.randint(1, 2),)
            cases.append(case(Drawing(r).text(), keys=keys(r), nowin=nowin, until=r.choice([8, 20, 40, 90]), what="random program"))
        ck.traces_stage("random programs %d" % k, cases, module="TraceScreen", main="source/driver_sdl")
        ck.traces_stage("random programs %d, checked memory" % k, cases[:ck.n(60, 150)], module="TraceScreen", main="source/driver_sdl", variant="asan")
    rounds(ck, 500, stage)
