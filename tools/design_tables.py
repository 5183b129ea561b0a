"""Rewrites the generated tables of DESIGN.md (status of the properties, planted bugs) from MANIFEST.json and seeded/.
usage: design_tables.py [LOG]   LOG: lines "<bug id> <property> rc=1 obligation: <obligation>" of the last detection run"""
import glob
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = os.path.join(HERE, "DESIGN.md")
man = json.load(open(os.path.join(HERE, "MANIFEST.json")))
text = open(D).read()


def part(note, start):
    m = re.search(start + r": (.*?)(?:; bounded|; run-time|\. Floats|$)", note)
    return m.group(1) if m else "none"


rows = ["| property | level | proved for all inputs | bounded stand-ins | run-time contract checks only |", "|---|---|---|---|---|"]
for c in man["checks"]:
    n = c["level_note"]
    rows.append(f"| {c['property']} | {c['level']} | {part(n, 'for all inputs')} | {part(n, r'never counted as proved.')} | {part(n, 'run-time contract checks of the real code only')} |")
hit = {}
old = re.search(r"<!-- bugs -->(.*?)<!-- /bugs -->", text, re.S).group(1)
for m in re.finditer(r"^\| (\S+) \| P\d\d \| .*? \| (.*?) \|$", old, re.M):
    hit[m.group(1)] = m.group(2)
if len(sys.argv) > 1:
    for l in open(sys.argv[1]):
        m = re.match(r"(\S+) (P\d\d) rc=(\d) +(?:obligation: (.*?))?\s*(no-failing-input-found)?$", l.rstrip())
        if m:
            hit[m.group(1)] = (m.group(4).strip() + (" (no failing input)" if m.group(5) else "")) if m.group(3) == "1" else "missed"
bugs = ["| planted bug | property | what it breaks | obligation that fails |", "|---|---|---|---|"]
for d in sorted(glob.glob(os.path.join(HERE, "seeded", "*"))):
    m = json.load(open(os.path.join(d, "meta.json")))
    i = os.path.basename(d)
    bugs.append(f"| {i} | {m['property']} | {m['what_it_breaks']} | {hit.get(i, '')} |")
for nm, t in (("status", rows), ("bugs", bugs)):
    text = re.sub(rf"<!-- {nm} -->.*?<!-- /{nm} -->", lambda _: f"<!-- {nm} -->\n" + "\n".join(t) + f"\n<!-- /{nm} -->", text, flags=re.S)
open(D, "w").write(text)
