#!/usr/bin/env python3
"""Prints the coverage table of DESIGN.md from the evidence files of the last runs."""
import glob, json, os
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
print("| id | tier | states | transitions | real executions compared | wall |")
print("|----|------|-------:|------------:|-------------------------:|-----:|")
for p in sorted(glob.glob("evidence/C*.json")):
    e = json.load(open(p))
    c = e["coverage"]
    print(f"| {e['property']} | {e['tier']} | {c['states']:,} | {c['transitions']:,} | {c['traces_validated_against_impl']:,} | {e['wall_s']:.0f} s |")
