"""plant.py FILE...: each FILE defines BUGS = [dict(id, property, edits=[(path, old, new)], demo, needs, breaks)].
Makes a scratch copy of /repo, applies the edits, confirms that the build and the stable tests pass and that the demo
tells the two trees apart, and writes seeded/<id>/."""
import json
import os
import runpy
import shutil
import subprocess as sp
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg")
DEMO = '#!/bin/bash\n# run with cwd = the repository\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONPATH="$PWD"\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def run(cmd, cwd):
    return sp.run(cmd, cwd=cwd, env=ENV, capture_output=True, text=True, timeout=600)


def plant(b):
    tmp = tempfile.mkdtemp(prefix="plant-")
    try:
        tree = os.path.join(tmp, "repo")
        shutil.copytree("/repo", tree, symlinks=True)
        d = os.path.join(tmp, "seed")
        os.makedirs(d)
        open(os.path.join(d, "demo.sh"), "w").write(DEMO)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        open(os.path.join(d, "demo.py"), "w").write(b["demo"].strip() + "\n")
        r = run(["bash", os.path.join(d, "demo.sh")], tree)
        if r.returncode:
            return f"{b['id']}: demo fails on the unchanged tree: {r.stderr[-600:]}"
        for path, old, new in b["edits"]:
            p = os.path.join(tree, path)
            s = open(p).read()
            if s.count(old) != 1:
                return f"{b['id']}: {path}: {s.count(old)} matches of {old!r}"
            open(p, "w").write(s.replace(old, new))
        diff = run(["git", "diff"], tree).stdout
        r = run(["bash", os.path.join(d, "demo.sh")], tree)
        if r.returncode == 0:
            return f"{b['id']}: demo passes with the change"
        msg = (r.stderr.strip() or r.stdout.strip()).splitlines()[-1:]
        x = os.path.join(tmp, "junit.xml")
        t = run(["/opt/venv/bin/python", "-m", "pytest", "tests", "-q", "-p", "no:cacheprovider", "--no-cov", "--timeout=300",
                 "-o", "junit_family=xunit2", "--junitxml=" + x], tree)
        if t.returncode:
            return f"{b['id']}: tests fail: {t.stdout[-500:]}"
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
        dst = os.path.join(ROOT, "seeded", b["id"])
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(d, dst)
        return f"{b['id']}: kept ({msg})"
    finally:
        shutil.rmtree(tmp)


bugs = [b for f in sys.argv[1:] for b in runpy.run_path(f)["BUGS"]]
with ThreadPoolExecutor(6) as ex:
    for m in ex.map(plant, bugs):
        print(m, flush=True)
