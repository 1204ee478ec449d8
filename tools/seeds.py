"""Creates and verifies the planted bugs of seeded/ from tools/seed_data.py:
   python3 tools/seeds.py make [ID..]     write seeded/ID/{patch.diff,demo.sh,demo.py,meta.json} (scratch copy under /tmp)
   python3 tools/seeds.py verify [ID..]   demo on the unchanged and the changed tree, stable tests, and the property's check on the changed tree
"""
import json
import os
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDS = []


def seed(id, prop, edits, needs, what, demo):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, needs=needs, what=what, demo=demo))


exec(open(os.path.join(HERE, "tools", "seed_data.py")).read())
DEMO = '''#!/bin/bash
# run with cwd /repo: exit 0 when the behaviour is intact
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
PYTHONPATH="$PWD:$PYTHONPATH" exec python "$here/demo.py"
'''


def copy(tag):
    d = "/tmp/seedcopy-" + tag
    shutil.rmtree(d, ignore_errors=True)
    subprocess.check_call(["cp", "-a", "/repo", d])
    return d


def make(s):
    d = copy("make")
    for f, old, new in s["edits"]:
        p = os.path.join(d, f)
        t = open(p).read()
        assert t.count(old) == 1, (s["id"], f, t.count(old), old)
        open(p, "w").write(t.replace(old, new))
    diff = subprocess.check_output(["git", "-C", d, "diff"], text=True)
    o = os.path.join(HERE, "seeded", s["id"])
    os.makedirs(o, exist_ok=True)
    open(o + "/patch.diff", "w").write(diff)
    open(o + "/demo.sh", "w").write(DEMO)
    os.chmod(o + "/demo.sh", 0o755)
    open(o + "/demo.py", "w").write(s["demo"].lstrip("\n"))
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["what"]}, open(o + "/meta.json", "w"), indent=1)
    shutil.rmtree(d)


def run(cmd, cwd, env=None, timeout=1000):
    e = dict(os.environ)
    e.update(env or {})
    t = time.time()
    try:
        r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        return r.returncode, r.stdout, time.time() - t
    except subprocess.TimeoutExpired:
        return 124, "timeout", time.time() - t


def verify(s, tests=True, check=True):
    o = os.path.join(HERE, "seeded", s["id"])
    d = copy(s["id"])
    out = [s["id"], s["prop"]]
    a = run(["bash", o + "/demo.sh"], d)
    subprocess.check_call(["git", "-C", d, "apply", o + "/patch.diff"])
    b = run(["bash", o + "/demo.sh"], d)
    out.append("demo %d/%d" % (a[0], b[0]))
    if a[0] != 0:
        out.append(a[1][-300:])
    if tests:
        t = run(["bash", "-c", ". /opt/vp/env.sh; PYTHONPATH=%s python -m pytest -q -p no:cacheprovider --timeout=300 -n 4 --continue-on-collection-errors --ignore=tests/loss_fn/test_mse_lpips_loss.py tests projects/torch_vct/tests 2>&1 | tail -8" % d], d)
        out.append("tests: " + t[1].strip().split("\n")[-1])
        if "failed" in t[1] or "error" in t[1].split("\n")[-2]:
            out.append(t[1])
    if check:
        # evidence must not be overwritten by runs against copies
        c = run([HERE + "/check", s["prop"], "quick"], HERE, {"VERIF_REPO": d, "VERIF_EVIDENCE": d + "/.evidence"})
        out.append("check exit %d in %.0fs %s" % (c[0], c[2], "" if c[0] == 1 else c[1][-600:]))
        for l in c[1].split("\n"):
            if l.startswith("violated"):
                out.append(l[:200])
                break
    shutil.rmtree(d)
    print(" | ".join(out), flush=True)
    return out


if __name__ == "__main__":
    ids = [a for a in sys.argv[2:] if not a.startswith("-")]
    sel = [s for s in SEEDS if not ids or s["id"] in ids or s["prop"] in ids]
    if sys.argv[1] == "make":
        for s in sel:
            make(s)
    else:
        with ThreadPoolExecutor(2) as ex:
            list(ex.map(lambda s: verify(s, "-notests" not in sys.argv, "-nocheck" not in sys.argv), sel))
