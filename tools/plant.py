"""Plant a bug: tools/plant.py SPEC.py... (authoring helper; no check reads it).

A spec defines PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (python source; exits non-zero on failure).
Writes /verif/seeded/<stem>/ after confirming: demo passes on /repo, fails with the change, tests pass with it.
"""
import json, os, re, shutil, subprocess, sys, pathlib

PY = "/opt/venv/bin/python"
SCR = pathlib.Path(os.environ.get("PLANT_DIR", "/tmp/plant"))


def sh(cmd, cwd, **env):
    return subprocess.run(cmd, cwd=cwd, env={**os.environ, "PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "Agg", **env},
                          capture_output=True, text=True)


def plant(spec, test=True):
    ns = {}
    exec(pathlib.Path(spec).read_text(), ns)
    sid = pathlib.Path(spec).stem
    d = pathlib.Path("/verif/seeded") / sid
    tree = SCR / "repo"
    if tree.exists():
        shutil.rmtree(tree)
    tree.parent.mkdir(parents=True, exist_ok=True)
    subprocess.run(["cp", "-a", "/repo", str(tree)], check=True)
    for f, old, new in ns["EDITS"]:
        p = tree / f
        s = p.read_text()
        assert s.count(old) == 1, (sid, f, s.count(old), old)
        p.write_text(s.replace(old, new))
    diff = sh(["git", "diff"], tree).stdout
    d.mkdir(parents=True, exist_ok=True)
    (d / "patch.diff").write_text(diff)
    (d / "demo.py").write_text(ns["DEMO"].lstrip())
    (d / "demo.sh").write_text('#!/bin/bash\n# cwd: the repository\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 '
                               'MPLBACKEND=Agg\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    (d / "meta.json").write_text(json.dumps({"property": ns["PROP"], "needs": ns["NEEDS"],
                                             "what_it_breaks": ns["BREAKS"]}, indent=1) + "\n")
    ok = sh(["bash", str(d / "demo.sh")], "/repo")
    bad = sh(["bash", str(d / "demo.sh")], tree)
    print(sid, "demo clean rc", ok.returncode, "patched rc", bad.returncode)
    if ok.returncode:
        print(ok.stderr[-1500:])
    if not bad.returncode or "AssertionError" not in bad.stderr:
        print("  patched stderr:", bad.stderr[-600:])
    good = ok.returncode == 0 and bad.returncode != 0
    if good:
        r = sh(["timeout", "850", PY, "/verif/check.py", ns["PROP"]], "/verif", VERIF_REPO=str(tree), VERIF_NOEVIDENCE="1")
        hits = [x for x in r.stdout.splitlines() if x.startswith("VIOLATION")]
        print("  check", ns["PROP"], "rc", r.returncode, "violations", len(hits))
    if good and test:
        r = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-n", "8", "--timeout=300", "--tb=no",
                f"--basetemp={SCR}/pt", "test"], tree, PYTHONPATH=str(tree), PYTHONHASHSEED="0")
        tail = r.stdout.strip().splitlines()[-4:]
        fails = [x for x in r.stdout.splitlines() if x.startswith(("FAILED", "ERROR")) and "netcdf_from_url" not in x]
        print("  tests:", tail[-1], fails[:5])
        good = not fails
    print("  =>", "KEEP" if good else "REJECT")
    if not good:
        shutil.rmtree(d)
    shutil.rmtree(tree)


for s in [a for a in sys.argv[1:] if not a.startswith("-")]:
    plant(s, "--notest" not in sys.argv)
