#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
RT = "Bounded: within the stated sizes every path is decided by z3 over all values; outside them nothing is claimed. Trusts rustc/LLVM's lowering to bitcode, the executor (sampled paths are re-run natively on each run) and z3 (sampled against cvc5)."
T_RT = "symbolic execution of the compiled code's LLVM bitcode (own KLEE-style engine) with z3"
claims = {}
for p in ("C07", "C08", "C09", "C10", "C11"):
    claims[p] = (T_RT, RT)
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
extra = os.path.join(os.path.dirname(os.path.abspath(__file__)), "vlib")
if os.path.exists(os.path.join(extra, "gen.py")):
    for p in ("C01", "C02", "C03", "C04", "C05", "C06", "C17"):
        claims[p] = (T_RT + ": real oak!-generated parsers against a reference PEG semantics", RT + " The family of grammars is finite and generated; inputs are symbolic.")
if os.path.exists(os.path.join(extra, "mid.py")):
    for p in ("C12", "C13", "C14", "C15", "C16", "C18", "C19", "C20"):
        claims[p] = (T_RT + ": the oak compiler itself run on symbolic grammar text", RT + " Grammar texts are templates with symbolic bytes.")
checks = [{"property": p, "quick_cmd": "./check " + p, "thorough_cmd": "./check " + p, "technique": t, "level": "model_checking", "level_note": n} for p, (t, n) in sorted(claims.items())]
na = {}
for l in open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl")):
    i = json.loads(l)["id"]
    if i not in claims and i not in na:
        na[i] = "check not built yet"
json.dump({"version": 1, "setup_cmd": "./check --setup", "checks": checks, "not_applicable": [{"property": k, "reason": v} for k, v in sorted(na.items())]}, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "MANIFEST.json"), "w"), indent=1)
