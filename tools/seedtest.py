"""seedtest.py [id...]: runs the check of each planted change's property (or ALL=1: every check) on a scratch tree with it applied."""
import json
import os
import shutil
import subprocess as sp
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(ROOT, "seeded")
ids = sys.argv[1:] or sorted(os.listdir(S))
for i in ids:
    meta = json.load(open(os.path.join(S, i, "meta.json")))
    tmp = tempfile.mkdtemp(prefix="seedtest-")
    try:
        tree, v = os.path.join(tmp, "repo"), os.path.join(tmp, "verif")
        shutil.copytree("/repo", tree, symlinks=True)
        r = sp.run(["git", "apply", os.path.join(S, i, "patch.diff")], cwd=tree, capture_output=True, text=True)
        if r.returncode:
            print(i, "does not apply", r.stderr)
            continue
        shutil.copytree(ROOT, v, ignore=shutil.ignore_patterns("seeded", ".git", "out", "evidence"))
        props = [meta["property"]] if not os.environ.get("ALL") else [c["property"] for c in json.load(open(os.path.join(ROOT, "MANIFEST.json")))["checks"]]
        out = []
        for p in props:
            t = time.time()
            r = sp.run(["/opt/venv/bin/python", "check.py", p], cwd=v, env=dict(os.environ, VERIF_REPO=tree), capture_output=True, text=True)
            hit = [l for l in r.stdout.splitlines() if l.startswith("    case")]
            if r.returncode or p == meta["property"]:
                out.append(f"{p}={r.returncode} {time.time() - t:.0f}s {hit[:1]}")
                if r.returncode not in (0, 1) or r.returncode == 0 and os.environ.get("V"):
                    out.append(r.stdout[-1500:] + r.stderr[-1500:])
        print(i, meta["property"], *out, flush=True)
    finally:
        shutil.rmtree(tmp)
