"""mktable.py: rewrite the table of planted changes in DESIGN.md from seeded/*/meta.json and seeded/RESULTS (id -> caught by)."""
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(ROOT, "seeded")
got = {}
for l in open(os.path.join(ROOT, "tools", "seeded_results.txt")):
    m = re.match(r"(\S+) (C\d\d) C\d\d=(\d+) \S+ (.*)", l)
    if m:
        case = re.search(r"    case (.*?)['\"]\]", m[4])
        got[m[1]] = (m[3], case[1] if case else "")
rows = ["| id | property | needs | what it breaks | result |", "|---|---|---|---|---|"]
esc = lambda s: str(s).replace("|", "\\|").replace("\n", " ")
for i in sorted(d for d in os.listdir(S) if os.path.isdir(os.path.join(S, d))):
    m = json.load(open(os.path.join(S, i, "meta.json")))
    r = got.get(i, ("?", ""))
    res = f"caught: {r[1]}" if r[0] == "1" else "missed" if r[0] == "0" else "not run"
    rows.append(f"| {i} | {m['property']} | {esc(m['needs'])} | {esc(m['what_it_breaks'])} | {esc(res)[:110]} |")
p = os.path.join(ROOT, "DESIGN.md")
s = open(p).read()
a, b = "<!-- planted -->", "<!-- /planted -->"
s = re.sub(re.escape(a) + ".*?" + re.escape(b), lambda _: a + "\n" + "\n".join(rows) + "\n" + b, s, flags=re.S)
open(p, "w").write(s)
