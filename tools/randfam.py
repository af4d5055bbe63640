#!/usr/bin/env python3
"""Offline helper: proposes random grammars for vlib/family.py (the accepted ones are pinned there)."""
import random, sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import peg
R = random.Random(int(sys.argv[1])); N = int(sys.argv[2])
LITS = ['"a"', '"b"', '"c"', '"a"', '"b"', '"ab"']
CLS = ['["a"]', '["b"]', '["a-b"]', '["b-c"]', '.', '["ac"]']
act = [0]

def f():
    act[0] += 1
    return "f%d" % act[0]

def unit(d):
    r = R.random()
    if d <= 0 or r < .22:
        return R.choice(LITS)
    if r < .45:
        return "(" + " ".join(unit(d - 1) for _ in range(R.randint(2, 3))) + ")"
    if r < .72:
        return "(" + " / ".join(useq(d - 1) for _ in range(R.randint(2, 4))) + ")"
    if r < .84:
        return unit(d - 1) + R.choice("*+?")
    if r < .92:
        return R.choice("!&") + unit(d - 1)
    return "(" + val(d - 1) + ":" + R.choice(["()", "(^)"]) + ")"

def useq(d):
    return " ".join(unit(d) for _ in range(R.randint(1, 3)))

def one(d):
    "an expression of type char"
    r = R.random()
    if d <= 0 or r < .3:
        return R.choice(CLS)
    if r < .55:
        return "(" + " ".join(R.sample([unit(d - 1), one(d - 1), unit(d - 1)][:R.randint(2, 3)], k=2) if 0 else deco(d)) + ")"
    return "(" + " / ".join(" ".join(deco(d)) for _ in range(R.randint(2, 3))) + ")"

def deco(d):
    l = [unit(d - 1) for _ in range(R.randint(0, 2))]
    l.insert(R.randint(0, len(l)), one(d - 1))
    return l

def acted(d):
    r = R.random()
    if d <= 0 or r < .3:
        return "(" + R.choice(CLS) + " > " + f() + ")"
    alts = []
    for _ in range(R.randint(1, 3)):
        alts.append(" ".join(R.choice([val, unit, one, acted])(d - 1) for _ in range(R.randint(1, 3))) + " > " + f())
    return "(" + " / ".join(alts) + ")"

def val(d):
    r = R.random()
    if d <= 0:
        return R.choice(CLS)
    if r < .2:
        return one(d)
    if r < .45:
        return "(" + " ".join(R.choice([val, val, unit])(d - 1) for _ in range(R.randint(2, 3))) + ")"
    if r < .65:
        return val(d - 1) + R.choice("*+?") if not val else "(" + val(d - 1) + ")" + R.choice("*+?")
    if r < .8:
        return acted(d)
    if r < .9:
        return "(" + R.choice(["..", "..", "..."]) + " " + R.choice([val, unit])(d - 1) + ")"
    return one(d)

out = []
while len(out) < N:
    act[0] = 0
    k = R.random()
    d = R.choice([2, 2, 3, 3, 4])
    body = R.choice([useq, useq, lambda d: val(d), lambda d: " ".join(R.choice([val, unit, one, acted])(d - 1) for _ in range(R.randint(2, 3))), lambda d: " / ".join(" ".join(deco(d)) for _ in range(2))])(d)
    t = "r = " + body
    if R.random() < .3:
        s = R.choice([one, unit, val, acted])(2)
        i = [i for i in range(len(t)) if t[i:i + 3] in LITS or t.startswith(".", i) and t[i-1] in "( " and t[i+1:i+2] in " )"]
        if i:
            i = R.choice(i)
            t = t[:i] + "s" + t[i + (3 if t[i] == '"' else 1):] + " s = " + s
    if len(t) > 150 or len(t) < 22:
        continue
    try:
        g = peg.G(t)
    except peg.Bad:
        continue
    out.append(t)

def minlen(rules, e, seen=()):
    k = e[0]
    if k == "lit": return len(e[1])
    if k in ("any", "cls"): return 1
    if k == "name": return 9 if e[1] in seen else minlen(rules, rules[e[1]], seen + (e[1],))
    if k == "seq": return sum(minlen(rules, x, seen) for x in e[1])
    if k == "cho": return min(minlen(rules, x, seen) for x in e[1])
    if k in ("star", "opt", "not", "and"): return 0
    return minlen(rules, e[1], seen)
for t in out:
    g = peg.P(t).grammar()
    if minlen(dict(g), g[0][1]) <= 4:
        print(t)

