#!/usr/bin/env python3
"""Writes DESIGN.md from the parts in meta/ and the lists in /verif."""
import json, os, re
os.chdir(os.path.dirname(os.path.abspath(__file__)) + "/..")
ns = {}
exec(open("meta/design_props.py").read(), ns)
props = {}
for l in open("properties.jsonl"):
    p = json.loads(l); props[p["id"]] = p
out = [open("meta/design_body.md").read()]
for i, oracle, limits, tests in ns["D"]:
    src = open(f"harness/src/props/{i.lower()}.rs").read()
    q = re.search(r"quick: ([\d_]+)", src).group(1).replace("_", " ")
    t = re.search(r"thorough: ([\d_]+)", src).group(1).replace("_", " ")
    r = re.search(r'rule: "((?:[^"\\]|\\.)*)"', src, re.S).group(1)
    out.append(f"### {i} {props[i]['title']}\n\n*Decided by*: {oracle}\n\n*Bounds*: {limits} Cases: {q} quick, {t} thorough. "
               f"Non-trivial: {r}.\n\n*Why tests do not settle it*: {tests}\n")
missing = set(props) - {d[0] for d in ns["D"]}
assert not missing, missing
tail = open("meta/design_tail.md").read()
f = ["| property | status | what |", "|---|---|---|"]
for l in open("known_findings.jsonl"):
    k = json.loads(l)
    f.append(f"| {k['property']} | {'fixed in ' + k['commit'] if k['status']=='fixed' else 'recorded: ' + k['probe']} | {k['what']} |")
tail = tail.replace("@FINDINGS@", "\n".join(f))
res = json.load(open("meta/seeded_results.json")) if os.path.exists("meta/seeded_results.json") else {}
s = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
for b in sorted(os.listdir("seeded"), key=lambda x: (int(re.search(r"\d+", x).group()), x)):
    m = json.load(open(f"seeded/{b}/meta.json"))
    s.append(f"| {b} | {m['property']} | {m['needs']} | {res.get(b, m['property'])} |")
tail = tail.replace("@SEEDED@", "\n".join(s))
camp = open("meta/campaign.md").read() if os.path.exists("meta/campaign.md") else ""
tail = tail.replace("@CAMPAIGN@", camp)
out.append(tail)
open("DESIGN.md", "w").write("\n".join(out).rstrip() + "\n")
