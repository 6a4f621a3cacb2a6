"""writes MANIFEST.json"""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import importlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "P02": "constant propagation of the advertised capabilities against the routed request types, plus decision-table conformance",
    "P08": "constant propagation through the suggestion tables with cross-table rules, plus decision-table conformance",
    "P09": "constant propagation of names through display and recognition, plus decision-table conformance",
    "P01": "typestate of request handling over abstract traces of the message loop (disjunctive abstract interpretation of MIR)",
    "P05": "panic-site inventory with guard conformance (abstract decision tables over MIR)",
    "P06": "order-sensitivity dataflow of hash iterations, ambient-input and shared-state effect analysis",
    "P07": "dataflow of language-version values plus decision-table conformance",
    "P13": "effect analysis over the resolved call graph",
    "P14": "natural-loop and call-graph-cycle analysis with confirmed ranking arguments",
}
DEFAULT = "abstract decision tables (path-sensitive dataflow over MIR) compared with the confirmed tables"
NOTES = {}
NA = {
    "P30": "the value is the output of a cryptographic hash over run-time text: no static argument over the source decides that "
           "two hash computations agree (the way the hash's input is composed is covered by P10's decision tables)",
    "P31": "overlap of edits depends on run-time offsets of an arbitrary text; bounding them statically needs a relational "
           "numeric domain over the syntax tree's text ranges, which is out of reach here",
    "P32": "whether generated or migrated text compiles is decided by the Rust compiler and the ink! macros (not in this "
           "repository, not installable offline) on text that only exists at run time",
    "P33": "latency is a run-time quantity; termination (P14) is the part static analysis decides",
}


def main():
    props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
    checks = []
    for p in props:
        i = p["id"]
        if i in NA:
            continue
        m = importlib.import_module("rules." + i.lower())
        checks.append({
            "property": i,
            "quick_cmd": "python3 tools/check.py %s quick" % i,
            "thorough_cmd": "python3 tools/check.py %s thorough" % i,
            "technique": getattr(m, "TECHNIQUE", TECH.get(i, DEFAULT)),
            "level": getattr(m, "LEVEL", "other"),
            "level_note": getattr(m, "NOTE", "Static: decides over all abstract paths of the current source; nothing is "
                                             "executed. Unknown constructs and analysis limits count as violations. Loops "
                                             "are compared up to two symbolic iterations; dependencies are opaque."),
            "evidence_file": "evidence/%s.json" % i,
        })
    ids = {p["id"]: p for p in props}
    man = {
        "version": 1,
        "setup_cmd": "python3 tools/facts.py",
        "hooks": {"guard": "none", "enable": "no hooks: the checks read the unmodified source", "source_commits": []},
        "checks": checks,
        "not_applicable": [{"property": k, "reason": v} for k, v in NA.items() if k in ids],
        "notes": "All checks share one fact base extracted from rustc MIR for the current tree of /repo (tools/facts.py, cached "
                 "by source hash under build/). See DESIGN.md.",
    }
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
