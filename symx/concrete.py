"""Replay/validate scenarios on the unmodified code (no shims).

stdin: JSON list of items -> stdout: JSON list of outcomes;
or ``python -m symx.concrete replay.json`` for one replay file."""

import json
import os
import sys

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable, "-B", "-m", "symx.concrete", *sys.argv[1:]])

from . import runner


def main():
    runner.setup_process(patch=False)
    if len(sys.argv) > 1:
        it = json.load(open(sys.argv[1]))
        r = runner.concrete([it])[0]
        print(json.dumps(r, indent=1))
        bad = bool(r["failed"] or r["exc"])
        print("REPRODUCED" if bad else "not reproduced")
        sys.exit(1 if bad else 0)
    import contextlib
    import io

    items = json.load(sys.stdin)
    with contextlib.redirect_stdout(io.StringIO()):
        r = runner.concrete(items)
    print(json.dumps(r, default=str))


main()
