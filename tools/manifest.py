#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the harness functions."""
import json, glob, re, os
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
props = [json.loads(l) for l in open("properties.jsonl")]
have = set()
for f in glob.glob("harness/h*/*.go"):
    have |= set(re.findall(r"^func (C\d\d)T?_\w+\(\)", open(f).read(), re.M))
bounds = json.load(open("bounds.json")) if os.path.exists("bounds.json") else {}
checks, na = [], []
REASON = {}
for p in props:
    i = p["id"]
    if i not in have:
        na.append({"property": i, "reason": REASON[i]})
        continue
    b = bounds.get(i, "")
    checks.append({
        "property": i,
        "quick_cmd": f"./check.sh {i} quick",
        "thorough_cmd": f"./check.sh {i} thorough",
        "technique": "symbolic execution of the real Go code (SSA from /repo's current source) with every branch and assertion decided by an SMT solver (z3, cvc5); counterexamples replayed on the compiled code",
        "level": "model_checking",
        "level_note": ("Holds for every value of the symbolic inputs within the bounds" + (": " + b if b else "") +
            ". Trusted: the SSA translation of golang.org/x/tools, this engine's semantics and its models of fmt, os and similar library calls (sampled paths are re-run natively and compared), z3/cvc5."),
    })
json.dump({"version": 1, "setup_cmd": "./check.sh build", "checks": checks, "not_applicable": na,
           "notes": "No hooks: the harnesses use exported functions only and reach the code through go build -overlay; for C34 package main is copied from the working tree with its package name changed."},
          open("MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable")
