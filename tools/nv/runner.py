"""One run of the check of one property: stages, verdict, evidence."""
import json, os, random, sys, time, traceback
from . import lib

SAMPLES = 3


class Violation(Exception):
    def __init__(self, replay, text):
        self.replay, self.text = replay, text


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.evaluations = 0
        self.stages, self.samples, self.assumptions = [], [], []
        self.extra = {}
        self.known = known_findings(prop)
        self.found = []

    def rng(self, name="", k=0):
        return random.Random("%s/%s/%d/%d" % (self.prop, name, self.seed, k))

    def n(self, quick, thorough=None):
        return (thorough if thorough is not None else quick * 8) if self.thorough else quick

    def left(self, total):
        return total - (time.time() - self.t0)

    # -- what a case looks like in a report
    def describe(self, c, verdict=""):
        obs = c.obs or {}
        return {"what": c.what, "source": c.source()[:1500], "opt": c.opt, "handlers": c.h,
                "ops": [op_text(x) for x in c.ops][:200], "verdict": verdict,
                "observed_tail": obs.get("log", [])[-3:], "rc": obs.get("rc"), "end": obs.get("end")}

    def replay(self, c, verdict, module, variant):
        d = os.path.join(lib.ROOT, "build", "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%s-%d.json" % (self.prop, self.tier, c.id))
        j = {"property": self.prop, "module": module, "variant": variant,
             "report": self.describe(c, verdict), "case": c.inputs_json(), "harness": c.harness_text(),
             "observed": c.obs}
        with open(p, "w") as f:
            json.dump(j, f, indent=1)
        return p

    # -- a stage: cases run on the real code and judged by the specification
    def traces_stage(self, name, cases, module="TraceRun", variant="plain", timeout=800, batch=4000,
                     env=None, main="harness.cpp", cfg=None):
        t0 = time.time()
        observe = lib.observe_screen if main.endswith("_sdl") else lib.observe_cli if main.startswith("source/") else lib.observe
        binary = lib.build(variant, main)
        bad = total = 0
        info = []
        st = {"stage": name, "cases": len(cases), "module": module, "states": 0, "transitions": 0,
              "unspecified": 0, "unfinished": 0, "events": 0, "rejected": 0}
        for at in range(0, len(cases), batch):
            part = lib.number(cases[at:at + batch])
            observe(part, binary)
            todo = part
            while todo:
                try:
                    r = lib.conform(todo, module, timeout=timeout, env=env, cfg=cfg)
                except lib.CheckError:
                    # code that the specification cannot run: is it code at all?
                    coded = [c for c in todo if getattr(c, "mode", "") == "code"]
                    if not coded or module != "TraceRun":
                        raise
                    for c in coded:
                        c.mode = "form"
                    r = lib.conform(coded, module, timeout=timeout, env=env, cfg=cfg)
                    if not r.bad:
                        raise
                st["states"] += r.distinct
                st["transitions"] += r.states
                st["unspecified"] += len(r.unspecified)
                st["unfinished"] += len(r.unfinished)
                info += r.prints
                if os.environ.get("NV_DEBUG"):
                    for c in todo:
                        if c.id in r.unfinished or c.id in r.unspecified:
                            print("UNFINISHED" if c.id in r.unfinished else "UNSPECIFIED", name, self.describe(c))
                if not r.bad:
                    break
                i, verdict = r.bad[0]
                c = next(x for x in todo if x.id == i)
                self.confirm(c, verdict, module, variant, binary, env, observe, cfg)
                # only a listed finding comes back from confirm
                todo = [x for x in todo if x.id != i]
            st["events"] += sum(len(c.obs.get("log", ())) for c in part)
            st["rejected"] += sum(c.obs.get("rc") == 0 for c in part)
            if len(self.samples) < SAMPLES and part:
                c = part[self.rng("sample").randrange(len(part))]
                self.samples.append(dict(self.describe(c, "conforms"), stage=name))
            for c in part:
                c.obs = None if len(cases) > batch else c.obs
        st["wall_s"] = round(time.time() - t0, 1)
        self.states += st["states"]
        self.transitions += st["transitions"]
        self.traces += len(cases)
        self.stages.append(st)
        return info

    def confirm(self, c, verdict, module, variant, binary, env, observe, cfg):
        first = c.obs
        for _ in range(3):
            observe([c], binary)
            r = lib.conform([c], module, env=env, cfg=cfg)
            if r.bad:
                break
        else:
            if first["end"] == 2:      # the machine was slow or full, not the code wrong
                return
            c.obs = first
            raise Violation(self.replay(c, verdict, module, variant), "not on every run: " + verdict)
        for k in self.known:
            if k["match"] in r.bad[0][1] or k["match"] in c.source():
                self.found.append(k["text"])
                return
        raise Violation(self.replay(c, r.bad[0][1], module, variant), r.bad[0][1])

    # -- a stage: properties of the specification itself, explored by TLC
    def model_stage(self, name, module, cfg=None, env=None, timeout=800, exhaustive=True, workers=None):
        r = lib.tlc(module, env or {}, cfg=cfg, timeout=timeout, workers=workers)
        if r.bad:
            raise lib.CheckError("the specification breaks its own property: %s" % (r.bad[0],))
        self.states += r.distinct
        self.transitions += r.states
        self.stages.append({"stage": name, "module": module, "cfg": cfg or module + ".cfg",
                            "states": r.distinct, "transitions": r.states, "exhaustive": exhaustive,
                            "wall_s": round(r.wall, 1)})
        return r

    def fail(self, what, detail):
        """a violation found outside of a trace stage"""
        d = os.path.join(lib.ROOT, "build", "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%s.json" % (self.prop, self.tier))
        with open(p, "w") as f:
            json.dump({"property": self.prop, "what": what, "detail": detail}, f, indent=1)
        raise Violation(p, what)

    def evidence(self, level, violations):
        d = os.path.join(lib.ROOT, "evidence")
        os.makedirs(d, exist_ok=True)
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "stages": self.stages,
               "samples": self.samples or [{"note": "stopped before a sample was kept"}]}
        cov.update(self.extra)
        with open(os.path.join(d, self.prop + ".json"), "w") as f:
            json.dump({"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
                       "coverage": cov, "assumptions": self.assumptions,
                       "wall_s": round(time.time() - self.t0, 1), "violations": violations}, f, indent=1)


def op_text(x):
    f = bytes(x["f"]).decode("latin1")
    o = x["o"]
    names = {1: "init", 2: "call %s%r" % (f, x["a"]), 3: "thread %s%r" % (f, x["a"]),
             4: "vm.resume(%d)" % x["n"], 5: "resume t%d %d" % (x["t"], x["n"]),
             6: "step_inst t%d" % x["t"], 7: "step_line t%d" % x["t"],
             8: "break t%d at %d" % (x["t"], x["p"]), 9: "unbreak t%d at %d" % (x["t"], x["p"]),
             10: "clear breaks t%d" % x["t"], 11: "vm.reset", 12: "lines of t%d" % x["t"]}
    return names.get(o, "op%d t%d n%d" % (o, x["t"], x["n"]))


def known_findings(prop):
    """Lines 'finding: property=<id> match=<text> :: <what fails>' of the file."""
    out = []
    p = os.path.join(lib.ROOT, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("finding: property=%s " % prop):
                m = l.split("match=", 1)[1].split(" :: ", 1)
                out.append({"match": m[0], "text": m[1].strip()})
    return out


def main(props):
    if len(sys.argv) < 2 or sys.argv[1] not in props:
        print("usage: check.py PROPERTY [quick|thorough]")
        return 2
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ck = Check(prop, tier, seed)
    level = "model_checking"
    try:
        props[prop](ck)
    except Violation as v:
        ck.evidence(level, 1)
        print("%s: %s" % (prop, v.text[:2000]))
        print("VIOLATION property=%s replay=%s" % (prop, v.replay))
        return 1
    except lib.CheckError as e:
        print("ERROR: %s" % e)
        return 3
    except Exception:
        traceback.print_exc()
        return 3
    for t in sorted(set(ck.found)):
        print("KNOWN-FINDING: property=%s %s" % (prop, t))
    ck.evidence(level, 0)
    print("%s %s: held on %d traces, %d states (%.0f s)" % (prop, tier, ck.traces, ck.states, time.time() - ck.t0))
    return 0
