#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json
from plan import PLAN

NOTE = "Exhaustive within the stated bounds, on the real code; trusts the reference model (harness/src/model.rs), the compiler and the standard library."
T = {
    "C01": ("bounded exhaustive enumeration of texts and follow-up operations on the real code", "No crash, hang or abort on any enumerated text in four build configurations; nothing is said about longer texts than the bounds, and very deep nesting is a recorded finding."),
    "C02": ("exhaustive enumeration of token sequences against an explicit-state pushdown model", NOTE),
    "C03": ("exhaustive enumeration of juxtapositions against an explicit-state pushdown model", NOTE),
    "C04": ("exhaustive enumeration of literals and identifiers against an explicit-state model", NOTE),
    "C05": ("exhaustive enumeration of expression trees and valuations against a reference evaluator", NOTE + " Values are compared where every intermediate result is finite."),
    "C06": ("exhaustive enumeration of constant expressions, results and calls compared", NOTE),
    "C07": ("exhaustive enumeration of simplification histories against a reference evaluator", NOTE + " Values are compared where every intermediate result is finite."),
    "C08": ("exhaustive enumeration of evaluation routes and variable orders", NOTE),
    "C09": ("exhaustive enumeration of assignments to variables (all subsets)", NOTE),
    "C10": ("exhaustive enumeration of declared sets and simplifications", NOTE),
    "C11": ("exhaustive exploration of context operation histories against an explicit-state model", NOTE),
    "C12": ("exhaustive enumeration of arities, argument counts and compositions with call traces", NOTE),
    "C13": ("exhaustive enumeration of names and argument grids against a reference table", NOTE + " Values are trusted to libm, factorial and gamma within a stated error."),
    "C14": ("exhaustive enumeration of malformed texts against an explicit-state pushdown model with positions", NOTE),
    "C15": ("exhaustive enumeration of expressions and simplification histories, print and parse round trips", NOTE),
    "C16": ("exhaustive fault enumeration: a panic in every call of a user function in every operation history", NOTE + " Memory is watched by an allocator that sees double frees and leaks."),
    "C17": ("stateless exploration of all interleavings up to a preemption bound on the instrumented real code, and all re-entrant nestings", NOTE + " Sequentially consistent interleavings at instrumented accesses."),
    "C18": ("exhaustive exploration of session histories of the real binary", NOTE),
    "C19": ("exhaustive exploration of operation histories against a fresh process", NOTE),
    "C20": ("exhaustive enumeration of pairs of expressions", NOTE + " Values are compared on a fixed set of valuations."),
    "C21": ("exhaustive enumeration of names against an explicit-state model", NOTE),
    "C23": ("exhaustive enumeration of pairs and triples of public values", NOTE),
    "C24": ("exhaustive exploration of operation histories under an allocator that accounts for every block", NOTE),
    "C22": ("exhaustive enumeration of white space placements on every token sequence", NOTE),
}
checks = [{"property": c, "quick_cmd": "./check " + c, "thorough_cmd": "./check %s --tier thorough" % c,
           "technique": T[c][0], "level": "model_checking", "level_note": T[c][1]} for c in sorted(PLAN)]
na = [{"property": c, "reason": "being built"} for c in T if c not in PLAN]
m = {"version": 1, "setup_cmd": "./check --build SPo SPn SJo SJn NPo NPn TPo", "checks": checks, "not_applicable": na}
with open("MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
