#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REF = "differential property-based testing against an independent reference parser"
T = {
 "C01": (REF, "acceptance compared with a hand-written reading of the grammar on grammar-derived and mutated texts; trusts that reading"),
 "C02": (REF, "whole trees compared with the reference parser's"),
 "C03": ("property-based testing with adversarial repetition and a work counter", "panics, missing results and super-linear growth up to 4096 repetitions; work is the parser's own expression count"),
 "C04": (REF, "all positions of nodes compared with the reference parser's"),
 "C05": (REF, "comment attachment compared with the reference parser's, and kept through printing"),
 "C06": (REF, "list of warnings compared with the reference parser's, and warnings on versus off"),
 "C07": ("metamorphic property-based testing", "comments ignored versus removed from tree and text"),
 "C08": ("round-trip property-based testing", "tree of the text versus tree of its formatted text"),
 "C09": ("idempotence property-based testing", "formatting once versus twice"),
 "C10": ("metamorphic property-based testing with a layout oracle", "two layouts of the same tokens format alike; indentation recomputed independently"),
 "C11": ("round-trip property-based testing over generated trees", "constructed tree versus tree parsed from its text"),
 "C12": ("round-trip property-based testing over all magnitudes of floats", "printed numbers are literals with the same value"),
 "C13": ("property-based testing against a reference model and round trip", "escape and unescape compared with a table-driven model"),
 "C14": ("property-based testing against a reference model, round trip through the parser", "quoting result judged by the parser and a model of escaping"),
 "C15": ("property-based testing against a reference model", "unescaped quoting judged by an independent definition of valid literals"),
 "C16": ("model-based property testing of edit scripts", "edit scripts executed on the tree and on a list model"),
 "C17": ("property-based testing against a reference model", "id lookup on constructed and parsed plugins"),
 "C18": ("property-based testing over generated error chains", "classification versus construction recipe"),
 "C19": ("property-based testing of the built binary against an oracle for reports", "exit status, stderr entries and files versus the parser's verdicts"),
 "C20": ("property-based testing of the built binary against a simulation", "stdout, files and modes versus a simulation"),
 "C21": ("property-based testing of the built binary against a reference linter", "exact list of findings versus reference parser and id model"),
 "C22": ("stateful property-based testing of the built binary", "fixed files compared with the formatted originals, repeated runs"),
 "C23": ("property-based fault injection (size limits, devices, permissions, failing system calls)", "outcome under one fault versus outcome without it"),
 "C24": ("stateful property-based testing, histories versus fresh processes", "last parse of a history versus the same parse in a new process"),
 "C25": ("property-based concurrency testing under the race detector", "random sets of parallel parses and prints; schedules are the Go scheduler's"),
 "C26": ("differential property-based testing of entry points with faulty readers", "bytes versus readers versus files; injected read errors"),
 "C27": ("differential property-based testing across option sets", "options on versus off, all limits, reference parser with invalid bytes permitted"),
 "C28": ("property-based testing with an invariant on reported positions", "every reported position recomputed from the text"),
 "C29": ("stateful property-based testing with deep comparison", "read-only operations leave a deep copy equal"),
 "C30": ("metamorphic property-based testing of the built binary", "runs over lists versus runs over single files"),
 "C31": ("model-based property testing of edits", "each edit of a slice or operator compared with dumps of this and of other trees"),
 "C32": ("round-trip property-based testing of tree parts", "every part printed alone, parsed in a minimal context and compared"),
 "C34": ("property-based testing with adversarial repetition and an allocation counter", "allocated memory for 2N and 4N repetitions (N up to 1024); a growth between linear and 1.25 times linear, or below 400 kB, is not seen"),
 "C35": ("metamorphic property-based testing over lists of options", "a list of options compared with the shortest list of the same effect, used repeatedly"),
 "C36": ("round-trip and model-based property testing of assembled trees", "trees assembled from parts of two parsed texts, printed, parsed and compared; cursor edits also against a list model"),
 "C33": ("metamorphic property-based testing of the built binary", "differently spelled command lines compared; wrong ones have to fail without effect"),
}
checks = []
for i, (t, n) in T.items():
    checks.append(dict(property=i, quick_cmd=f"./run.sh {i}", thorough_cmd=f"VERIF_TIER=thorough ./run.sh {i}",
        technique=t, level="exploration", level_note=n))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=[],
    notes="No hooks: the checks link the public packages and run the built command line tool. known-findings.txt lists recorded and repaired defects.")
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
