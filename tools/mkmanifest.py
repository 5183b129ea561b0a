#!/opt/venv/bin/python
"""Writes MANIFEST.json from properties.jsonl and the contracts that exist."""
import json
import os
import sys

os.environ["NUMBA_DISABLE_JIT"] = "1"
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
sys.path.insert(0, "/repo")
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
from pyvc import driver  # noqa: E402

TECH = "contract-based deductive verification: obligations generated from the AST of /repo's current functions and discharged by z3/cvc5; failed obligations replayed on the real code"
NA = {}  # property -> reason, when no contract can decide it
LEVEL = {}  # property -> level other than "proof": what the property is about is only bounded or checked at run time, though some steps are proved
NOTES = {}
try:
    with open(os.path.join(HERE, "tools", "levels.json")) as f:
        d = json.load(f)
    NA, LEVEL, NOTES = d.get("not_applicable", {}), d.get("level", {}), d.get("note", {})
except FileNotFoundError:
    pass
reg = driver.load_contracts(HERE)
have = {}
for c in reg.values():
    for p in c.props:
        have.setdefault(p, []).append(c)
checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    pid = json.loads(line)["id"]
    if pid in NA:
        na.append({"property": pid, "reason": NA[pid]})
        continue
    if pid not in have:
        na.append({"property": pid, "reason": "no contract has been written for it yet"})
        continue
    cs = have[pid]
    proved = sorted(c.name for c in cs if c.inputs is not None)
    bnd = sorted(c.name for c in cs if c.inputs is None and c.bounded)
    rt = sorted(c.name for c in cs if c.inputs is None and not c.bounded)
    note = "for all inputs: " + (", ".join(proved) or "none")
    if bnd:
        note += "; bounded stand-ins (bound stated in the evidence, never counted as proved): " + ", ".join(bnd)
    if rt:
        note += "; run-time contract checks of the real code only: " + ", ".join(rt)
    note += ". Floats are treated as reals; the generator, the numpy model and the solvers are trusted"
    checks.append(
        {
            "property": pid,
            "quick_cmd": f"/opt/venv/bin/python /verif/check.py {pid}",
            "thorough_cmd": f"/opt/venv/bin/python /verif/check.py {pid} --tier thorough",
            "evidence_file": f"/verif/evidence/{pid}.json",
            "technique": TECH if proved or bnd else "contracts on the real functions, checked at run time on generated inputs (no contract within the verifier's reach yet)",
            "level": LEVEL.get(pid, "proof" if proved else "other"),
            "level_note": NOTES.get(pid, note),
            **({"theorems": proved} if proved else {}),
        }
    )
m = {
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python /verif/tools/setup_check.py",
    "checks": checks,
    "not_applicable": na,
    "notes": "known findings: /verif/KNOWN_FINDINGS.txt; design: /verif/DESIGN.md",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "claimed;", len(na), "not claimed")
