#!/usr/bin/env python3
"""plant.py SPECS.py [--check] [--only ID]: builds seeded bugs from specs and validates them in a scratch copy.

SPECS.py defines BUGS = [dict(id, property, edits=[(file, old, new)...], demo, needs, breaks)]. A bug is kept in
/verif/seeded when the stable tests pass with it and its demo fails with it and passes without it. --check also runs the
property's quick check against the scratch copy and says whether it is caught."""
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
PKG = "spine_json_lib/"


def sh(cmd, cwd, **env):
    return subprocess.run(cmd, cwd=cwd, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", **env), text=True,
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=1200)


def main():
    spec = importlib.util.spec_from_file_location("specs", sys.argv[1])
    specs = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(specs)
    only = sys.argv[sys.argv.index("--only") + 1].split(",") if "--only" in sys.argv else None
    for bug in specs.BUGS:
        if only and bug["id"] not in only:
            continue
        one(bug, "--check" in sys.argv)


def one(bug, check):
    scratch = tempfile.mkdtemp(prefix="plant-")
    try:
        copy = os.path.join(scratch, "repo")
        shutil.copytree(REPO, copy, symlinks=True)
        for name, old, new in bug["edits"]:
            path = os.path.join(copy, PKG + name)
            text = open(path).read()
            if text.count(old) != 1:
                print("%-28s BAD EDIT: %d matches of %r" % (bug["id"], text.count(old), old[:60]))
                return
            open(path, "w").write(text.replace(old, new))
        diff = sh(["git", "diff"], copy).stdout
        demo = os.path.join(scratch, "demo")
        os.makedirs(demo)
        open(os.path.join(demo, "demo.sh"), "w").write(
            '#!/bin/sh\nexec python3 -B "$(dirname "$0")/demo.py"\n')
        open(os.path.join(demo, "demo.py"), "w").write(
            "import os, sys\nsys.dont_write_bytecode = True\nsys.path.insert(0, os.getcwd())\n" + bug["demo"])
        clean = sh(["sh", os.path.join(demo, "demo.sh")], REPO)
        broken = sh(["sh", os.path.join(demo, "demo.sh")], copy)
        tests = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider"], copy)
        ok = clean.returncode == 0 and broken.returncode != 0 and tests.returncode == 0
        verdict = "ok" if ok else "REJECTED clean=%d broken=%d tests=%d" % (
            clean.returncode, broken.returncode, tests.returncode)
        if ok:
            out = os.path.join(ROOT, "seeded", bug["id"])
            os.makedirs(out, exist_ok=True)
            open(os.path.join(out, "patch.diff"), "w").write(diff)
            for f in ("demo.sh", "demo.py"):
                shutil.copy(os.path.join(demo, f), out)
            os.chmod(os.path.join(out, "demo.sh"), 0o755)
            json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]},
                      open(os.path.join(out, "meta.json"), "w"), indent=1)
        else:
            verdict += "\n" + clean.stdout[-600:] + "\n--\n" + broken.stdout[-300:] + "\n--\n" + tests.stdout[-600:]
        if check and ok:
            r = sh([sys.executable, "-B", "check.py", bug["property"]], ROOT, SPINE_REPO=copy)
            lines = r.stdout.strip().splitlines()
            verdict += " | %s: %s" % (bug["property"], "CAUGHT " + lines[-2].strip()[:150] if r.returncode == 1
                                     else "MISSED (exit %d) %s" % (r.returncode, lines[-1][:200]))
        print("%-28s %s" % (bug["id"], verdict), flush=True)
    finally:
        shutil.rmtree(scratch)


main()
