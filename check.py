#!/opt/venv/bin/python
"""check.py PROPERTY [--tier quick|thorough] [--only SUBSTR] [-v]"""

import os
import sys
from pathlib import Path

sys.dont_write_bytecode = True
HERE = Path(__file__).resolve().parent
sys.path.insert(0, str(HERE))
if os.environ.get("PYTHONHASHSEED") != "0":  # set iteration order: same in every process
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable, "-B", *sys.argv])

CHECKS = {}
for p in sorted((HERE / "checks").glob("*.py")):
    if p.stem[0] in "OPDSK" and p.stem[1:3].isdigit():
        CHECKS[p.stem.split("_")[0]] = p.stem

if __name__ == "__main__":
    pid = sys.argv[1]
    if pid == "--selftest":  # setup: everything is interpreted, nothing to build
        from symx import runner

        runner.setup_process(True)
        print("ready:", sorted(CHECKS))
        sys.stdout.flush()
        os._exit(0)
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    only = sys.argv[sys.argv.index("--only") + 1] if "--only" in sys.argv else None
    from symx import runner

    rc = runner.main(pid, CHECKS[pid], tier, only, "-v" in sys.argv)
    sys.stdout.flush()
    os._exit(rc)
