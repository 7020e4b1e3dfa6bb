"""Helper for planting bugs: seed(id, property, edits, needs, breaks, demo) writes seeded/<id>/ ."""
import json, os, shutil, subprocess, tempfile
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")


def seed(id, prop, edits, needs, breaks, demo):
    d = os.path.join(ROOT, "seeded", id)
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix="seed")
    try:
        subprocess.run(["git", "clone", "-q", "/repo", t + "/r"], check=True)
        for f, old, new in edits:
            p = os.path.join(t, "r", f)
            s = open(p).read()
            assert s.count(old) == 1, (id, f, old, s.count(old))
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", t + "/r", "diff"], check=True, stdout=subprocess.PIPE).stdout
        open(os.path.join(d, "patch.diff"), "wb").write(diff)
    finally:
        shutil.rmtree(t)
    open(os.path.join(d, "meta.json"), "w").write(json.dumps(dict(property=prop, needs=needs, what_it_breaks=breaks), indent=1) + "\n")
    open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nexec python3-vt -B "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    open(os.path.join(d, "demo.py"), "w").write("from pd import *\n\n" + demo.strip() + "\n")
    shutil.copy(os.path.join(ROOT, "tools", "pd_demo.py"), os.path.join(d, "pd.py"))
