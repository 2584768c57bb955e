"""Generates properties.jsonl and MANIFEST.json from one table (run by hand)."""

import importlib.util
import json
from pathlib import Path

HERE = Path(__file__).resolve().parent

OPT, CON, VAR, GLO = ("pypsa/optimization/optimize.py", "pypsa/optimization/constraints.py",
                      "pypsa/optimization/variables.py", "pypsa/optimization/global_constraints.py")
ABS, PF, CONT, NET = ("pypsa/optimization/abstract.py", "pypsa/pf.py", "pypsa/contingency.py", "pypsa/networks.py")

TECH = ("symbolic execution of the shipped functions on symbolic component data; SMT (z3) proves the emitted "
        "constraints/objective equivalent to an independent specification")
LTECH = {"O": TECH,
         "P": "symbolic execution of the shipped power-flow code; SMT (z3) proves the physical equations over its results",
         "D": "symbolic execution of the shipped data-handling code; SMT (z3) decides the stated relation for all values",
         "S": "symbolic execution of the shipped metric code; SMT (z3) proves equality with an independent definition",
         "K": "symbolic execution of the shipped aggregation code; SMT (z3) proves equality with an independent definition"}

WHY_VAL = ("quantifies over every value of the component data and every decision; tests compare one solver optimum of a "
           "few sample networks, which misses wrong constraints that are slack there")

P = {}


def prop(pid, title, statement, over, text, why, files, mech, observe=None):
    P[pid] = dict(
        id=pid, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                     **({"observe_at": observe} if observe else {})))


exec((HERE / "meta_props.py").read_text())


def main():
    checks, na = [], []
    with open(HERE / "properties.jsonl", "w") as f:
        for p in P.values():
            f.write(json.dumps(p) + "\n")
    for pid in P:
        mods = sorted((HERE / "checks").glob(f"{pid}_*.py"))
        if not mods:
            na.append(dict(property=pid, reason=NA[pid]))
            continue
        cmd = f"/opt/venv/bin/python check.py {pid}"
        checks.append(dict(
            property=pid, quick_cmd=cmd, thorough_cmd=cmd + " --tier thorough", evidence_file=f"evidence/{pid}.json",
            technique=LTECH[pid[0]], level=LEVEL.get(pid, "model_checking"),
            level_note=NOTES[pid]))
    m = dict(version=1, setup_cmd="/opt/venv/bin/python check.py --selftest", checks=checks, not_applicable=na)
    (HERE / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
    print(len(P), "properties", len(checks), "checks", len(na), "not applicable")


LEVEL = {}
if __name__ == "__main__":
    main()
