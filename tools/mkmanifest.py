#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
ORDER = ("Complete up to order isomorphism for operands with the stated number of endpoints and pieces: the code under check "
         "is generic over Copy + Ord, so it can only compare endpoints. Assumes that more endpoints bring no new behaviour (small scope); "
         "trusts rustc, std and the cell-mask model.")
STEP = ("Complete for 8-bit types (and what the family names say); boundary windows of the other types. Both debug and release arithmetic. "
        "Trusts rustc, std, and the ordinal model. Quick: 64-bit target; thorough: 32-bit usize too; 16-bit targets are not explored.")
T = {
 "C01": ("exhaustive enumeration of operand pairs of all 15x15 types on the real code", ORDER),
 "C02": ("exhaustive enumeration of operand pairs of all 15x15 types on the real code", ORDER),
 "C03": ("exhaustive enumeration of operands of all 15 types on the real code", ORDER),
 "C04": ("exhaustive enumeration of operands and pairs of all types on the real code", ORDER),
 "C05": ("exhaustive enumeration of source ranges and iteration prefixes on the real code", STEP),
 "C06": ("explicit-state exploration of all operation sequences to a fixpoint of reachable values", ORDER),
 "C07": ("exhaustive enumeration of pairs, triples and insertion orders over reachable set values", ORDER),
 "C08": ("exhaustive enumeration of ranges, iterated on the real code", STEP),
 "C09": ("exhaustive enumeration of sets by construction route, iterated on the real code", STEP),
 "C10": ("explicit-state exploration of iterator call sequences to a fixpoint, real iterator against a deque model", STEP),
 "C11": ("explicit-state exploration of next/nth sequences, real iterator against a sequence model", STEP + " Histories that would step past the largest value of the type are outside the property."),
 "C12": ("exhaustive enumeration of values, counts and pairs on the real Step implementations", STEP),
 "C13": ("exhaustive enumeration of bounds and containers, real indexing against std", STEP),
 "C14": ("exhaustive enumeration of pairs and triples of bounds on the real code", ORDER),
 "C15": ("exhaustive enumeration of reachable values, round trip through JSON, CBOR and bincode", ORDER + " Formats: serde_json, ciborium, bincode 1."),
 "C16": ("exhaustive enumeration of the operation x operand type graph, each edge decided by compiling it against the real crate and probing the result type", "Complete over the fifteen types (every result is again one of them, so over all compositions). Trusts rustc's type checker and method resolution."),
 "C17": ("exhaustive enumeration of crate ranges, real conversions against an ordinal model", STEP),
 "C18": ("exhaustive enumeration of merge spans and operand kinds on large sets, with stack use measured on the real code", "Every span over every size up to the bound; stack independence decided by comparing two large sizes in unoptimised and optimised builds (a growth under 8 KB between them is not seen)."),
}
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=[], not_applicable=[],
         notes="No hooks in /repo. KNOWN_FINDINGS.md lists the defects found and repaired; DESIGN.md has bounds, costs and detection results.")
for line in open("properties.jsonl"):
    p = json.loads(line)["id"]
    t, n = T[p]
    m["checks"].append(dict(property=p, quick_cmd=f"python3 check.py {p} quick", thorough_cmd=f"python3 check.py {p} thorough",
                            evidence_file=f"evidence/{p}.json", technique="model checking: " + t, level="model_checking", level_note=n))
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
