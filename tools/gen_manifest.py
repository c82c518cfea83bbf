#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRUST = ("Trusted: TLC, the test host in harness/ that reports what the library did, and the reading of the language "
         "written down in spec/. Inputs beyond the bounds given in DESIGN.md are sampled (seeded), not enumerated.")
N = {
 "C01": "Programs generated from the grammar are run on the real library; each recorded run must be a behaviour of the TLA+ definition of the language (source text in, effects out).",
 "C02": "Every operator on every pair of kinds and of boundary values, from scripts and from host arguments, plus random values; the operator table is Int32/Float32/NanoValues in TLA+.",
 "C03": "All pairs and triples of operators with unary operators and parentheses, literals and layouts; NanoSyntax in TLA+ is the grammar and gives the grouping.",
 "C04": "Each program is compiled with and without the optimiser and both runs must be behaviours of the same specification.",
 "C05": "Rule-breaking texts and edited programs; NanoSyntax and NanoSema decide verdict and line.",
 "C06": "Arbitrary bytes, prefixes and extreme texts compiled under AddressSanitizer; end state and repeatability are judged against the specification.",
 "C07": "Programs run with the heap filled with junk and collected before every instruction; the specification has no collector, so any visible effect is a deviation.",
 "C08": "Allocation histories far larger than the heap, in every mode of running; live data is bounded by construction.",
 "C09": "All containers and index values, sharing patterns and random array programs against the heap of the specification.",
 "C10": "TLC enumerates all host histories up to a depth over decoded real programs and checks the scheduling rules on the specification; the histories and random ones are replayed on the real code, state compared after each step.",
 "C11": "Every cut and random slicing of runs; machine state compared with the specification after each slice.",
 "C12": "Every breakpoint set on small programs, random debugger sessions; stops and state compared with the specification.",
 "C13": "TLC enumerates histories of saves, loads, cuts and faults; replayed on the real code. Every truncation point and write fault of chosen programs, round trips of random ones.",
 "C14": "Every kind of fault in every construct and mode of running, with callbacks observed.",
 "C15": "All handler configurations, argument lists and values through every boundary crossing.",
 "C16": "Every import graph of three files and random graphs and layouts; NanoImport is the loading rule.",
 "C17": "Arguments of all kinds and boundary values for each built-in; sine, cosine and tangent against a table of samples.",
 "C18": "Lines visited, lines of errors, variable listings and function ranges compared with those of the specification of the source text.",
 "C19": "Frames of all shapes, recursion and threads; values of all variables compared.",
 "C21": "Runs of the command line programs on generated programs, inputs, files and faults; output and status are those of NanoCli in TLA+.",
 "C22": "TLC enumerates the lives (builds that work and fail, runs, resets, saves, loads) of a compiler, program and machine and of others beside them; each is replayed on real objects and the next program compiled and run in them must behave as the specification says of a new one.",
 "C23": "Texts with one error of every kind, every token of every construct replaced by every kind of token, names of many lengths, all characters and line ends; NanoMessages gives the message, the lines and the names.",
 "C24": "The driver is run on a stand-in for the window system with a scripted clock and keyboard; every picture shown, its time, the output and the status must be those of NanoScreen in TLA+. Every line and disc around small screens, every kind of argument, failures, random programs; edges also under AddressSanitizer.",
 "C20": "Code decoded by NanoDecode in TLA+: structure, stack heights, ranges, disassembly and classification are checked for every function.",
}
LEVEL = {}
checks = []
for p in sorted(N):
    checks.append({"property": p, "quick_cmd": "python3 tools/check.py %s quick" % p,
                   "thorough_cmd": "python3 tools/check.py %s thorough" % p,
                   "evidence_file": "evidence/%s.json" % p,
                   "technique": "TLA+ specification checked with TLC; conformance of real runs to the specification",
                   "level": LEVEL.get(p, "model_checking"), "level_note": N[p] + " " + TRUST})
json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": [],
           "notes": "No hooks: the checks use the library's public interface only. VERIF_SEED seeds every random choice."},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
