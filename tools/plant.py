"""Author-time helper (no check uses it): turn a specification of planted bugs
into /verif/seeded/<id>/ and confirm each in a scratch copy of /repo.

    python3 tools/plant.py SPEC.py [id ...]

SPEC.py defines BUGS = [dict(id, prop, edits=[(file, old, new)], demo, needs, breaks)].
"""
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '#!/bin/bash\nset -e\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def sh(cmd, cwd, timeout=900, env=None):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, timeout=timeout, env=env)


def plant(b):
    d = os.path.join(V, "seeded", b["id"])
    w = tempfile.mkdtemp(prefix="plant_", dir="/tmp")
    repo = os.path.join(w, "repo")
    try:
        sh(f"cp -a /repo {repo}", "/tmp")
        for f, old, new in b["edits"]:
            p = os.path.join(repo, f)
            s = open(p).read()
            if s.count(old) != 1:
                return b["id"], f"edit matches {s.count(old)} times in {f}: {old[:60]!r}"
            open(p, "w").write(s.replace(old, new))
        os.makedirs(d, exist_ok=True)
        diff = sh("git diff", repo).stdout
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.sh"), "w").write(SH)
        open(os.path.join(d, "demo.py"), "w").write(b["demo"].lstrip("\n"))
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        a = sh(f"bash {d}/demo.sh", "/repo", 300)
        c = sh(f"bash {d}/demo.sh", repo, 300)
        if a.returncode:
            return b["id"], "demo fails on the unchanged tree: " + a.stderr[-400:]
        if not c.returncode:
            return b["id"], "demo passes with the patch"
        sh(f"sed 's#/repo#{repo}#g; s/-n 8/-n 3/' /opt/vp/test.sh > {w}/test.sh", "/tmp")
        sh(f"bash {w}/test.sh {w}/out.json", "/tmp")
        got = json.load(open(f"{w}/out.json"))
        broken = sorted(x for x in STABLE if x not in got.get("passed", got))
        res = ["ok" if not broken else f"BROKEN {broken[:4]}"]
        k = sh(f"python3 -m sa.check {b['prop']} --repo {repo} -j 4", V, env=dict(os.environ, SA_EVIDENCE=w))
        kl = [x for x in k.stdout.splitlines() if not x.startswith("KNOWN")]
        return b["id"], f"demo {c.returncode} [{(c.stderr.strip().splitlines() or ['?'])[-1][:90]}] | tests {res[0]} | check {b['prop']} rc={k.returncode} {kl[0][:260] if kl else k.stderr[-200:]}"
    finally:
        shutil.rmtree(w)


def main():
    spec = importlib.util.spec_from_file_location("spec", sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    bugs = [b for b in m.BUGS if len(sys.argv) < 3 or b["id"] in sys.argv[2:]]
    with ThreadPoolExecutor(3) as ex:
        for i, r in ex.map(plant, bugs):
            print(f"{i}: {r}", flush=True)


if __name__ == "__main__":
    main()
