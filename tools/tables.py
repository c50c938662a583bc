#!/usr/bin/env python3
"""Writes the table of scenarios at the end of DESIGN.md from evidence files:
   tools/tables.py <dir of quick evidence> [<dir of thorough evidence>]"""
import json, glob, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def num(n):
    for unit, k in (("M", 1e6), ("k", 1e3)):
        if n >= k:
            return f"{n / k:.3g} {unit}" if n < 1000 * k else f"{n / k:.0f} {unit}"
    return str(n)

def load(d):
    out = {}
    for f in sorted(glob.glob(os.path.join(d, "C*.json"))):
        e = json.load(open(f))
        out[os.path.basename(f)[:3]] = {s["scenario"]: s for s in e["coverage"]["scenarios"]}
    return out

quick = load(sys.argv[1])
deep = load(sys.argv[2]) if len(sys.argv) > 2 else {}
lines = []
for prop in sorted(set(quick) | set(deep)):
    lines.append(f"**{prop}**\n")
    names = list(quick.get(prop, {})) + [n for n in deep.get(prop, {}) if n not in quick.get(prop, {})]
    for n in names:
        q, t = quick.get(prop, {}).get(n), deep.get(prop, {}).get(n)
        s = t or q
        cost = []
        for tier, e in (("quick", q), ("thorough", t)):
            if e and e["executions"]:
                cost.append(f"{tier} {num(e['executions'])} executions, {num(e['transitions'])} transitions, "
                            f"{num(e['states'])} states, {num(e['oracle_comparisons'])} checks")
        same = q and t and q["executions"] == t["executions"]
        if same:
            cost = [cost[0].replace("quick ", "", 1)] if cost else []
        text = s["enumerates"]
        if q and t and q["enumerates"] != t["enumerates"]:
            text = f"quick: {q['enumerates']}; thorough: {t['enumerates']}"
        b = s.get("deviation_bound")
        if b is not None:
            text += f" (deviations: {b})"
        lines.append(f"* `{n}`: {text}. *{'; '.join(cost)}*")
    lines.append("")
path = os.path.join(root, "DESIGN.md")
text = open(path).read()
a, b = "<!-- table: begin -->", "<!-- table: end -->"
assert a in text and b in text
head, rest = text.split(a, 1)
_, tail = rest.split(b, 1)
open(path, "w").write(head + a + "\n" + "\n".join(lines) + b + tail)
