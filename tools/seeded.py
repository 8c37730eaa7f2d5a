"""Verify planted bugs: python3 tools/seeded.py [ids...] [--no-tests] [--seeds 1,2] [-j 4]

For each /verif/seeded/<id>: copy /repo to a scratch folder, check the demo on
the clean copy, apply patch.diff, check that only original lines change, that
the stable tests pass, that the demo fails, and that the property's check
raises an alarm. Prints one line per bug. Uses only scratch copies.
"""
import argparse
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(ROOT, "seeded")
PY = "/opt/venv/bin/python"


def first_commit():
    return subprocess.run(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"],
                          capture_output=True, text=True).stdout.split()[-1]


def base_commit():
    # last commit before ours
    out = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout
    for line in out.splitlines():
        h, s = line.split(" ", 1)
        if not s.startswith("fix:"):
            return h
    return None


BASE = base_commit()


def run(cmd, cwd, env=None, timeout=1200):
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def touched_ok(w, patch):
    """Removed lines of the patch belong to the original repository."""
    f, old, ok = None, 0, True
    for line in patch.splitlines():
        if line.startswith("--- a/"):
            f = line[6:]
            blame = subprocess.run(["git", "-C", "/repo", "blame", "-s", "-l", f], capture_output=True, text=True).stdout
            blame = [b.split()[0].lstrip("^") for b in blame.splitlines()]
            ours = set(subprocess.run(["git", "-C", "/repo", "rev-list", BASE + "..HEAD"], capture_output=True,
                                      text=True).stdout.split())
        elif line.startswith("@@"):
            old = int(re.match(r"@@ -(\d+)", line).group(1))
        elif line.startswith("-") and not line.startswith("---"):
            if blame[old - 1] in ours or any(o.startswith(blame[old - 1]) for o in ours):
                ok = False
            old += 1
        elif line.startswith(" ") or line == "":
            old += 1
    return ok


def verify(bug, opt):
    d = os.path.join(SEEDED, bug)
    meta = json.load(open(os.path.join(d, "meta.json")))
    patch = open(os.path.join(d, "patch.diff")).read()
    w = tempfile.mkdtemp(prefix="seed_", dir="/tmp")
    repo = os.path.join(w, "repo")
    res = {"id": bug, "property": meta["property"]}
    try:
        shutil.copytree("/repo", repo, symlinks=True)
        env = {"PYTHONPATH": repo}
        demo = os.path.join(w, "demo")
        shutil.copytree(d, demo)
        res["demo_clean"], out0 = run(["bash", os.path.join(demo, "demo.sh")], repo, env, 300)
        rc, out = run(["git", "apply", os.path.join(d, "patch.diff")], repo)
        if rc:
            res["error"] = "patch does not apply " + out
            return res
        res["orig_lines"] = touched_ok(w, patch)
        res["demo_patched"], out1 = run(["bash", os.path.join(demo, "demo.sh")], repo, env, 300)
        if res["demo_clean"] or not res["demo_patched"]:
            res["demo_out"] = (out0 + out1)[-1500:]
        if not opt.no_tests:
            rc, out = run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], repo, env)
            res["tests"] = rc
            if rc:
                res["tests_out"] = out[-1200:]
        if not opt.no_check:
            props = [meta["property"]] + ([p for p in opt.also.split(",") if p])
            res["caught"] = {}
            for p in props:
                for seed in opt.seeds.split(","):
                    rc, out = run([sys.executable, os.path.join(ROOT, "check.py"), p],
                                  ROOT, {"VF_REPO": repo, "VERIF_SEED": seed, "VERIF_TIER": "quick",
                                         "VF_OUT": os.path.join(w, "out")})
                    v = [x for x in out.splitlines() if x.startswith("VIOLATION")]
                    res["caught"][p + ":" + seed] = (rc, v[:1], "" if v else out[-300:])
    finally:
        shutil.rmtree(w, ignore_errors=True)
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("ids", nargs="*")
    ap.add_argument("--no-tests", action="store_true")
    ap.add_argument("--no-check", action="store_true")
    ap.add_argument("--seeds", default="1")
    ap.add_argument("--also", default="")
    ap.add_argument("-j", type=int, default=3)
    opt = ap.parse_args()
    ids = opt.ids or sorted(x for x in os.listdir(SEEDED) if os.path.exists(os.path.join(SEEDED, x, "meta.json")))
    with cf.ThreadPoolExecutor(opt.j) as ex:
        for r in ex.map(lambda b: verify(b, opt), ids):
            ok = (r.get("demo_clean") == 0 and r.get("demo_patched") and r.get("tests", 0) == 0 and r.get("orig_lines"))
            caught = any(v[0] == 1 and v[1] for v in r.get("caught", {}).values())
            print("%-28s %s %s %s" % (r["id"], r["property"], "VALID" if ok else "INVALID", "CAUGHT" if caught else "missed"),
                  flush=True)
            if not ok or not caught:
                print("   ", json.dumps(r)[:2500], flush=True)


if __name__ == "__main__":
    main()
