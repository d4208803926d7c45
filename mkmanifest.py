#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os, subprocess
here = os.path.dirname(os.path.abspath(__file__))
ENUM = "bounded exhaustive enumeration on the real code against a reference model"
T = {
 "C01": (ENUM + " (all configurations x all small targets, all boundary bit patterns)", "Every exported algorithm configuration, on every target of the enumerated spaces, judged by re-evaluating the returned operations. Trusts math/big; targets outside the spaces are not covered."),
 "C02": (ENUM + " (all sequences over small alphabets, all ordered chains, word-boundary and long chains)", "Definition of chain validity and of the operation listing evaluated literally on every enumerated sequence. Trusts math/big."),
 "C03": (ENUM + " (all token sequences and strings to a bound vs a PEG model of the published grammar and an evaluator)", "The grammar model is a hand transcription of acc.peg; syntax tree, chain and rejection compared for every enumerated text."),
 "C04": (ENUM + " (all programs to a bound, both operand orders; long periodic programs; search results)", "Printed script read back by the real loader and by an independent reader; every enumerated program."),
 "C05": (ENUM + " (all instruction sequences to a bound, executed on a register machine, output aliased and not)", "Register machine written independently of the repository's interpreter."),
 "C06": (ENUM + " (all small scripts incl. dangling and zero-shift forms; literal interpreter for the listing)", "Listings interpreted literally from the printed text; script, chain and ops outputs compared with the reference evaluation."),
 "C07": (ENUM + " (all syntax trees to a node bound, all accepted token sequences)", "Tree equality after print and parse, idempotence and equal chains for every enumerated tree."),
 "C08": (ENUM + " (all ordered target lists over small values, structured large lists, all strategies and compositions)", "Chain definition and superset evaluated literally."),
 "C09": (ENUM + " (all small integers x K x T x method, all boundary run-length patterns)", "Bit-level definition of the decompositions."),
 "C10": (ENUM + " (all ordered chains to a bound, long periodic chains)", "Validity, subsequence, end points evaluated literally."),
 "C11": (ENUM + " (all ordered length chains to a bound, long length chains, oversized lengths)", "Chain definition and membership of every run; refusal of oversized lengths."),
 "C12": ("stateless model checking of the real executor under a controlled scheduler (preemption-bounded) plus a separate race-detector pass", "All schedules of the instrumented executor within the stated bounds; data races by a free-running -race pass."),
 "C13": (ENUM + " (all expressions to an operator bound, all short strings) vs an independent evaluator", "Independent recursive-descent evaluator; big intermediate values are pruned by a stated bound."),
 "C14": (ENUM + " (CLI runs over all small targets x costs x concurrency)", "The real binary, its outputs fed back to itself and to independent readers; minimum recomputed from the library."),
 "C15": (ENUM + " (CLI argument vectors, all token sequences and strings to a bound on every entry point)", "Crash, fatal error, hang and exit status monitored for every enumerated input."),
 "C16": (ENUM + " (all programs to a bound; names re-derived from values)", "Names checked against the value of the element they denote in every enumerated script."),
 "C17": (ENUM + " (all instruction sequences to a bound vs liveness by definition)", "Peak number of live values computed from first principles."),
 "C18": (ENUM + " (all builder call histories to a bound, all chain pairs) vs a list model", "Every call's result and effect compared with the model after every call."),
 "C19": (ENUM + " (all argument tuples to 200+ bits, limb boundaries, all short lists) vs naive arithmetic", "Definitions evaluated bit by bit."),
 "C20": (ENUM + " (all property lists and call histories to a bound over boundary alphabets) vs an ordered map", "Round trip, gofmt stability and map behaviour for every enumerated description."),
}
checks = []
for p in sorted(T):
    if not os.path.exists(os.path.join(here, "mc", "cmd", p.lower(), "main.go")):
        continue
    tech, note = T[p]
    checks.append({"property": p, "quick_cmd": f"./check.sh {p}", "thorough_cmd": f"./check.sh {p} -tier thorough",
                   "technique": tech, "level": "model_checking", "level_note": note})
m = {"version": 1, "setup_cmd": "./setup.sh",
     "hooks": {"guard": "none: no hooks in /repo (C12 instruments a scratch copy of the sources through a build overlay)", "enable": "nothing to enable", "source_commits": []},
     "checks": checks,
     "not_applicable": [{"property": p, "reason": "check under construction"} for p in sorted(T) if p not in [c["property"] for c in checks]],
     "notes": "Each check rebuilds from /repo. Fixed defects and known findings: known_findings.json."}
open(os.path.join(here, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
