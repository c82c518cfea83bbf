"""Shared machinery: build the harness from /repo, run cases against the real
library, and let TLC decide whether what was observed is a behaviour of the
specification."""
import hashlib, json, os, re, shutil, struct, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("NV_REPO", "/repo")
SPEC = os.path.join(ROOT, "spec")
HARNESS = os.path.join(ROOT, "harness")
BUILD = os.path.join(ROOT, "build")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = max(1, min(8, os.cpu_count() or 1))


class CheckError(Exception):
    """The machinery itself failed: neither a pass nor a violation."""


# ---------------------------------------------------------------- values
NONE = (0,)


def I(n):
    n &= 0xffffffff
    return (1, n - (1 << 32) if n >= 1 << 31 else n)


def F(x):
    b = struct.unpack("<I", struct.pack("<f", x))[0]
    return (2, b >> 16, b & 0xffff)


def FB(bits):
    return (2, bits >> 16, bits & 0xffff)


def S(s):
    if isinstance(s, str):
        s = s.encode("latin1")
    return (3, list(s))


def val_ints(v):
    if v[0] == 3:
        return [3, len(v[1])] + list(v[1])
    return list(v)


def val_json(v):
    return [3, list(v[1])] if v[0] == 3 else list(v)


# ---------------------------------------------------------------- cases
def op(o, f="", a=(), n=0, t=0, p=0):
    return {"o": o, "f": list(f.encode("latin1")), "a": [val_json(v) for v in a],
            "n": n, "t": t, "p": p}


INIT = op(1)


def call(f, *a):
    return op(2, f, a)


def spawn(f, *a):
    return op(3, f, a)


FL_PROGRAM, FL_SERIAL, FL_NORUN, FL_TWICE, FL_FILES, FL_JUNK, FL_HISTORY = 1, 2, 4, 8, 16, 32, 64
FL_USED, FL_NEWVM, FL_TEXT, FL_WIDE = 128, 256, 512, 1024


class Case:
    def __init__(self, text, ops=(), opt=1, h=0, dump=1, flags=0, inputs=(), files=None,
                 limit=10, what="", tags=(), mode="src", real=None, trig=(), sides=()):
        self.id = 0
        if isinstance(text, str):
            text = text.encode("latin1")
        self.files = [(b"", text)] if files is None else files
        self.ops, self.opt, self.h, self.dump = list(ops), opt, h, dump
        self.flags, self.inputs, self.limit = flags, list(inputs), limit
        self.what, self.tags = what, tuple(tags)
        self.mode = mode
        self.real = real or {}     # inputs/ops given to the real code instead
        self.trig = list(trig)     # samples of sine, cosine and tangent
        self.sides = [s.encode("latin1") if isinstance(s, str) else s for s in sides]  # sources of operations from 60 on
        self.obs = None

    def harness_text(self):
        o = ["case %d" % self.id, "opt %d" % self.opt, "h %d" % self.h, "dump %d" % self.dump,
             "flags %d" % self.flags, "limit %d" % self.limit]
        for p, t in self.files:
            o.append("file " + " ".join(map(str, [len(p)] + list(p) + [len(t)] + list(t))))
        for t in self.sides:
            o.append("side " + " ".join(map(str, [len(t)] + list(t))))
        for v in self.real.get("inputs", self.inputs):
            o.append("input " + " ".join(map(str, val_ints(v))))
        for x in self.real.get("ops", self.ops):
            v = [x["o"], x["t"], x["n"], x["p"], len(x["f"])] + x["f"] + [len(x["a"])]
            for y in x["a"]:
                v += val_ints(y)
            o.append("op " + " ".join(map(str, v)))
        o.append("end")
        return "\n".join(o) + "\n"

    def inputs_json(self):
        return {"id": self.id, "opt": self.opt, "h": self.h, "dump": self.dump, "flags": self.flags,
                "files": [{"path": list(p), "text": list(t)} for p, t in self.files],
                "inputs": [val_json(v) for v in self.inputs],
                "ops": [] if self.flags & FL_NORUN else self.ops, "mode": self.mode, "trig": self.trig}

    def spec_json(self):
        j = self.inputs_json()
        j.update(self.obs)
        return j

    def source(self):
        return "\n".join((("-- %s\n" % p.decode("latin1")) if p else "") + t.decode("latin1")
                         for p, t in self.files)


# ---------------------------------------------------------------- building
CXX = ["g++", "-std=gnu++17", "-w", "-include", "cstring", "-D__error_t_defined=1"]
# the library is meant to be built without optimisation or with null checks
# kept: it calls methods on null pointers and tests `this`
VARIANTS = {
    "plain": ["-O0", "-g0", "-fno-delete-null-pointer-checks"],
    "asan": ["-O1", "-g0", "-fno-delete-null-pointer-checks", "-fsanitize=address,bounds",
             "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"],
}


def lib_sources():
    src = []
    base = os.path.join(REPO, "source")
    for d in sorted(os.listdir(base)):
        if d.startswith("lib_") and os.path.isdir(os.path.join(base, d)):
            for f in sorted(os.listdir(os.path.join(base, d))):
                if f.endswith((".cpp", ".cc", ".cxx", ".c")):
                    src.append(os.path.join(base, d, f))
    return src


def tree_hash(extra):
    h = hashlib.sha256()
    for top in (os.path.join(REPO, "source"), HARNESS):
        for d, _, fs in sorted(os.walk(top)):
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode() + b"\0")
                with open(p, "rb") as fd:
                    h.update(fd.read() + b"\0")
    h.update(repr(extra).encode())
    return h.hexdigest()[:24]


def build(variant="plain", main="harness.cpp"):
    """Compile the library of /repo's working tree with a test host."""
    flags = CXX + VARIANTS[variant] + ["-I" + os.path.join(REPO, "source"),
                                       "-I" + os.path.join(REPO, "source", "lib_common")]
    key = tree_hash((flags, main))
    name = os.path.basename(main).split(".")[0]
    out = os.path.join(BUILD, "bin-%s-%s-%s" % (name, variant, key))
    if os.path.exists(out):
        return out
    os.makedirs(BUILD, exist_ok=True)
    for old in os.listdir(BUILD):
        if old.startswith("bin-%s-%s-" % (name, variant)):
            os.unlink(os.path.join(BUILD, old))
    tmp = tempfile.mkdtemp(dir=BUILD)
    try:
        # a main file of the test host, or a directory of programs of the repository
        if main.startswith("source/"):
            top = os.path.join(REPO, main)
            srcs = lib_sources() + [os.path.join(top, f) for f in sorted(os.listdir(top)) if f.endswith(".cpp")]
            if main.endswith("_sdl"):
                flags = flags + ["-I/usr/include/SDL2"]
                srcs.append(os.path.join(HARNESS, "screen.cpp"))
        else:
            srcs = lib_sources() + [os.path.join(HARNESS, main)]

        def one(i):
            o = os.path.join(tmp, "%d.o" % i)
            r = subprocess.run(flags + ["-c", srcs[i], "-o", o], capture_output=True, text=True)
            if r.returncode:
                raise CheckError("cannot compile %s:\n%s" % (srcs[i], r.stderr[-3000:]))
            return o
        with ThreadPoolExecutor(CORES) as ex:
            objs = list(ex.map(one, range(len(srcs))))
        r = subprocess.run(flags + objs + ["-o", out + ".tmp"], capture_output=True, text=True)
        if r.returncode and main.endswith("_sdl"):
            # something of the window system that the stand-in does not replace
            r = subprocess.run(flags + objs + ["-o", out + ".tmp", "-lSDL2"], capture_output=True, text=True)
        if r.returncode:
            raise CheckError("cannot link the harness:\n" + r.stderr[-3000:])
        os.rename(out + ".tmp", out)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return out


# ---------------------------------------------------------------- running
def fits(x):
    if isinstance(x, bool):
        return True
    if isinstance(x, int):
        return -2**31 <= x < 2**31
    if isinstance(x, list):
        return all(fits(y) for y in x)
    if isinstance(x, dict):
        return all(fits(y) for y in x.values())
    return True


def observe(cases, binary, env=None):
    """Run the cases on the real library; fills case.obs."""
    work = tempfile.mkdtemp(prefix="nv-run-")
    try:
        path = os.path.join(work, "cases")
        with open(path, "w") as f:
            for c in cases:
                f.write(c.harness_text())
        n = min(CORES, max(1, len(cases)))

        def one(k):
            d = os.path.join(work, "d%d" % k)
            os.mkdir(d)
            out = os.path.join(work, "out%d" % k)
            e = dict(os.environ)
            e.update(env or {})
            e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1"
            e["UBSAN_OPTIONS"] = "halt_on_error=1:abort_on_error=1"
            r = subprocess.run([binary, path, out, d, str(k), str(n)], cwd=d, env=e,
                               stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
            if r.returncode:
                raise CheckError("harness failed (%d): %s" % (r.returncode, r.stderr[-500:]))
            with open(out, "rb") as f:
                lines = f.read().split(b"\n")[:-1]
            mine = cases[k::n]
            if len(lines) != len(mine):
                raise CheckError("harness answered %d of %d cases" % (len(lines), len(mine)))
            for c, l in zip(mine, lines):
                c.obs = parse_obs(c, l)
        with ThreadPoolExecutor(n) as ex:
            list(ex.map(one, range(n)))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return cases


class CliCase:
    """a run of one of the command line programs"""
    ops, h = (), 0

    def __init__(self, prog, files, roots, stdin=b"", opt=1, asked="", writable=True, limit=20, what="", code=None):
        self.id = 0
        self.prog, self.files, self.roots, self.stdin = prog, files, roots, stdin
        self.opt, self.asked, self.writable, self.limit, self.what = opt, asked, writable, limit, what
        self.code = code           # what the library compiles from the same text
        self.flags, self.obs = 0, None

    source = Case.source

    def inputs_json(self):
        return {"id": self.id, "prog": self.prog, "opt": self.opt, "stdin": list(self.stdin),
                "files": [{"path": list(p), "text": list(t)} for p, t in self.files],
                "roots": [list(x) for x in self.roots], "asked": [ord(x) for x in self.asked], "writable": self.writable}

    def harness_text(self):
        return "%s %s" % (self.prog, " ".join(x.decode("latin1") for x in self.roots))

    def spec_json(self):
        j = self.inputs_json()
        j.update(self.obs)
        j["code"], j["listing"] = self.code or ([], [])
        return j


def observe_cli(cases, binary, env=None):
    """Run a command line program on each case, in a scratch directory."""
    work = tempfile.mkdtemp(prefix="nv-cli-")

    def one(c):
        d = os.path.join(work, str(c.id))
        os.mkdir(d)
        for p, t in c.files:
            q = os.path.join(os.fsencode(d), p)
            if p.endswith(b"/"):
                os.makedirs(q, exist_ok=True)
                continue
            os.makedirs(os.path.dirname(q), exist_ok=True)
            with open(q, "wb") as f:
                f.write(t)
        args = list(c.roots)
        if c.prog == "comp":
            if not c.writable:
                for x in c.asked:
                    os.mkdir(os.path.join(os.fsencode(d), c.roots[0] + {"a": b".ast", "b": b".bin", "d": b".dis"}[x]))
            args += [b"-" + x.encode() for x in c.asked] + ([] if c.opt else [b"-n"])
        try:
            p = subprocess.run([os.fsencode(binary)] + args, cwd=d, input=c.stdin, capture_output=True, timeout=c.limit,
                               preexec_fn=limits)
            rc, out, err = p.returncode, p.stdout, p.stderr
        except subprocess.TimeoutExpired as e:
            rc, out, err = None, e.stdout or b"", e.stderr or b""
        o = {"status": 3 if rc is None else 2 if rc < 0 else 0 if rc == 0 else 1, "out": list(out[:200000]), "eline": [-1, -1],
             "etext": [], "made": [], "bin": [], "disfile": [], "end": 2 if rc is None else 0, "log": []}
        m = re.match(rb"file (-?\d+), line:(-?\d+) - (.*)\n\Z", err, re.S)
        if m:
            o["eline"] = [int(m.group(1)), int(m.group(2))]
            o["etext"] = list(m.group(3))
        if c.prog == "comp" and c.roots:
            for x, ext in (("a", b".ast"), ("b", b".bin"), ("d", b".dis")):
                q = os.path.join(os.fsencode(d), c.roots[0] + ext)
                if os.path.isfile(q):
                    with open(q, "rb") as f:
                        b = f.read()
                    o["made"].append(ord(x))
                    if x == "b":
                        o["bin"] = list(b)
                    if x == "d":
                        o["disfile"] = [list(l) for l in b.split(b"\n") if l]
        c.obs = o

    try:
        with ThreadPoolExecutor(CORES) as ex:
            list(ex.map(one, cases))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return cases


class ScreenCase(CliCase):
    """a run of the driver with a screen; keys[t % len] are down at time t"""

    def __init__(self, files, roots, keys=(0,), nowin=(), until=100000, limit=20, what=""):
        CliCase.__init__(self, "screen", files, roots, limit=limit, what=what)
        self.keys, self.nowin, self.until = list(keys), list(nowin), until

    def inputs_json(self):
        return {"id": self.id, "files": [{"path": list(p), "text": list(t)} for p, t in self.files],
                "roots": [list(x) for x in self.roots], "keys": self.keys, "nowin": self.nowin, "until": self.until}

    def spec_json(self):
        j = self.inputs_json()
        j.update(self.obs)
        return j


def frames_of(b):
    """the pictures shown: each place of the script's screen is 3 x 3 of the window"""
    out, at = [], 0
    while at + 12 <= len(b):
        now, w, h = struct.unpack_from("<III", b, at)
        at += 12
        px = struct.unpack_from("<%dI" % (w * h), b, at)
        at += 4 * w * h
        if w % 3 or h % 3:
            out.append([80, now, -1, -1])
            continue
        f = [80, now, w // 3, h // 3]
        for y in range(0, h, 3):
            for x in range(0, w, 3):
                s = set()
                for k in range(3):
                    s.update(px[(y + k) * w + x:(y + k) * w + x + 3])
                f.append(s.pop() & 0x7fffffff if len(s) == 1 else -1)
        out.append(f)
    return out


def observe_screen(cases, binary, env=None):
    """Run the driver with a screen, on a stand-in for the window system."""
    work = tempfile.mkdtemp(prefix="nv-screen-")

    def one(c):
        d = os.path.join(work, str(c.id))
        os.mkdir(d)
        for p, t in c.files:
            q = os.path.join(os.fsencode(d), p)
            os.makedirs(os.path.dirname(q), exist_ok=True)
            with open(q, "wb") as f:
                f.write(t)
        fr = os.path.join(work, "%d.frames" % c.id)
        e = dict(os.environ, NV_FRAMES=fr, NV_KEYS="".join("%02x" % k for k in c.keys), NV_UNTIL=str(c.until),
                 NV_NOWIN=",".join(map(str, c.nowin)), ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:allocator_may_return_null=0",
                 UBSAN_OPTIONS="halt_on_error=1:abort_on_error=1")
        try:
            p = subprocess.run([os.fsencode(binary)] + list(c.roots), cwd=d, env=e, stdin=subprocess.DEVNULL, capture_output=True,
                               timeout=c.limit, preexec_fn=limits if "-asan-" in binary else small)
            rc, out, err = p.returncode, p.stdout, p.stderr
        except subprocess.TimeoutExpired as x:
            rc, out, err = None, x.stdout or b"", x.stderr or b""
        o = {"status": 3 if rc is None else 2 if rc < 0 else 0 if rc == 0 else 1, "out": list(out[:2000]), "eline": [-1, -1], "etext": [],
             "frames": [], "end": 2 if rc is None else 0, "log": []}
        m = re.match(rb"file (-?\d+), line:(-?\d+) - (.*)\n\Z", err, re.S)
        if m:
            o["eline"] = [int(m.group(1)), int(m.group(2))]
            o["etext"] = list(m.group(3))
            o["rc"] = 0
        if os.path.exists(fr):
            with open(fr, "rb") as f:
                o["frames"] = frames_of(f.read())
            o["log"] = [f[:4] for f in o["frames"]]
            os.unlink(fr)
        c.obs = o

    try:
        with ThreadPoolExecutor(CORES) as ex:
            list(ex.map(one, cases))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return cases


def limits():
    import resource
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_FSIZE, (64 << 20, 64 << 20))


def small():
    import resource
    limits()
    resource.setrlimit(resource.RLIMIT_AS, (1 << 30, 1 << 30))


def parse_obs(c, line):
    m = re.search(rb'"end":(\d+)\}$', line)
    end = int(m.group(1)) if m else 1
    try:
        j = json.loads(line)
    except ValueError:
        j = None
    if j is None or "rc" not in j or "log" not in j:
        return {"rc": -1, "again": -1, "eline": [-1, -1], "msg": 0, "nsrc": 0, "srcs": [], "etext": [], "lines": [], "names": [],
                "log": [], "end": end or 1}
    if j["id"] != c.id:
        raise CheckError("harness output out of order")
    del j["id"]
    if not fits(j):
        raise CheckError("observation does not fit 32 bits")
    return j


# ---------------------------------------------------------------- TLC
class TlcResult:
    def __init__(self):
        self.bad, self.states, self.distinct = [], 0, 0
        self.unfinished, self.unspecified, self.out, self.wall = [], [], "", 0
        self.prints = []


def tlc(module, env, cfg=None, timeout=840, workers=None, keep_going=False, heap="12g", extra=()):
    """Run TLC on a module of the specification. Returns a TlcResult."""
    meta = tempfile.mkdtemp(prefix="nv-tlc-")
    r = TlcResult()
    t0 = time.time()
    try:
        cmd = ["java", "-Xss256m", "-Xmx" + heap, "-XX:+UseParallelGC", "-DTLA-Library=" + SPEC, "-Djava.io.tmpdir=" + meta,
               "-cp", JARS, "tlc2.TLC", "-metadir", meta, "-noGenerateSpecTE",
               "-workers", str(workers or CORES), "-config", os.path.join(SPEC, cfg or module + ".cfg")]
        if keep_going:
            cmd.append("-continue")
        cmd += list(extra) + [os.path.join(SPEC, module + ".tla")]
        e = dict(os.environ)
        e.update(env)
        e.pop("JAVA_TOOL_OPTIONS", None)
        try:
            p = subprocess.run(cmd, cwd=meta, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC ran out of time on " + module)
        out = p.stdout.decode("latin1")
        r.out, r.wall = out, time.time() - t0
        for m in re.finditer(r'<<\s*"(BAD|UNFINISHED|UNSPECIFIED|INFO)",\s*(-?\d+)(.*?)>>\n(?=\S|$)', out, re.S):
            k, i = m.group(1), int(m.group(2))
            if k == "BAD":
                if i not in [b[0] for b in r.bad]:
                    r.bad.append((i, re.sub(r"\s+", " ", m.group(3)).strip(" ,")))
            elif k == "UNFINISHED":
                r.unfinished.append(i)
            elif k == "UNSPECIFIED":
                r.unspecified.append(i)
            else:
                r.prints.append((i, re.sub(r"\s+", " ", m.group(3)).strip(" ,")))
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        if m:
            r.states, r.distinct = int(m[-1][0]), int(m[-1][1])
        violated = "is violated" in out
        if violated and not r.bad:
            raise CheckError("TLC: violation without a verdict\n" + out[-4000:])
        if not violated and "Model checking completed. No error has been found" not in out:
            i = out.find("Error:")
            raise CheckError("TLC failed on %s\n%s" % (module, out[max(i, 0):][:3000]))
        return r
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def write_cases(cases, path):
    with open(path, "w") as f:
        for c in cases:
            f.write(json.dumps(c.spec_json()) + "\n")


def conform(cases, module="TraceRun", keep_going=False, timeout=840, env=None, cfg=None):
    d = tempfile.mkdtemp(prefix="nv-cases-")
    try:
        p = os.path.join(d, "cases.ndjson")
        write_cases(cases, p)
        e = {"CASES": p}
        e.update(env or {})
        return tlc(module, e, cfg=cfg, keep_going=keep_going, timeout=timeout)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def number(cases):
    for i, c in enumerate(cases):
        c.id = i + 1
    return cases
