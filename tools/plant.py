"""Plants bugs: python3 tools/plant.py new DEFS.py | confirm ID... | hunt ID...

new: DEFS.py defines BUGS, a list of dicts (id, property, edits=[(file, old, new), ...], demo, needs, what).
Each is turned into seeded/<id>/ after being tried in a scratch copy of the repository: the demonstration
must pass without and fail with the change, and the test suite must pass with it.
hunt: runs the quick check of the bug's property against a scratch copy with the bug and prints the outcome.
"""
import concurrent.futures as cf
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(here, "seeded")
REPO = os.environ.get("PLANT_REPO", "/repo")
PY = "/opt/venv/bin/python"


def scratch():
    d = tempfile.mkdtemp(prefix="plant", dir="/tmp")
    subprocess.check_call(["cp", "-a", REPO, d + "/repo"])
    return d


def env_for(repo):
    return dict(
        os.environ,
        PYTHONPATH=repo + "/src",
        PYTHONDONTWRITEBYTECODE="1",
        PATH="/opt/venv/bin:" + os.environ["PATH"],
        CUDA_VISIBLE_DEVICES="",
        MPLBACKEND="Agg",
        OMP_NUM_THREADS="2",
        RAY_ADDRESS="local",
        RAY_USAGE_STATS_ENABLED="0",
        WANDB_MODE="disabled",
        MLFLOW_DISABLE_TELEMETRY="true",
        MLFLOW_DISABLE_AGENT_HINT="1",
        MLFLOW_ALLOW_FILE_STORE="true",
    )


def run_demo(repo, bug):
    r = subprocess.run(["bash", os.path.join(SEEDED, bug, "demo.sh")], cwd=repo, env=env_for(repo), capture_output=True, text=True, timeout=300)
    return r.returncode, (r.stdout + r.stderr)[-1500:]


def tests(repo):
    t = tempfile.mkdtemp(prefix="pt", dir="/tmp")
    env = dict(env_for(repo), RAY_TMPDIR=t, TMPDIR=t)
    try:
        r = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--no-cov", "--timeout=120", "--basetemp=" + t + "/pt", "tests"], cwd=repo, env=env, capture_output=True, text=True)
        return r.returncode == 0 and "984 passed" in r.stdout, r.stdout[-600:]
    finally:
        subprocess.run(["pkill", "-9", "-f", t + "/"])
        shutil.rmtree(t, ignore_errors=True)


def make(bug):
    d = scratch()
    repo = d + "/repo"
    try:
        for f, old, new in bug["edits"]:
            path = os.path.join(repo, "src/evotorch", f)
            s = open(path).read()
            if s.count(old) != 1:
                return bug["id"], f"EDIT: {s.count(old)} matches in {f} of: {old[:80]!r}"
            open(path, "w").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "-C", repo, "diff"], text=True)
        out = os.path.join(SEEDED, bug["id"])
        os.makedirs(out, exist_ok=True)
        open(out + "/patch.diff", "w").write(diff)
        open(out + "/demo.py", "w").write(bug["demo"].lstrip("\n"))
        open(out + "/demo.sh", "w").write('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["what"]}, open(out + "/meta.json", "w"), indent=1)
        rc, msg = run_demo(repo, bug["id"])
        ok, tmsg = tests(repo)
        subprocess.check_call(["git", "-C", repo, "checkout", "-q", "--", "."])
        rc0, msg0 = run_demo(repo, bug["id"])
        if rc != 0 and rc0 == 0 and ok:
            return bug["id"], "confirmed"
        shutil.rmtree(out)
        why = []
        if rc == 0:
            why.append("demo passes with the bug")
        if rc0 != 0:
            why.append("demo fails without the bug: " + msg0)
        if not ok:
            why.append("tests fail: " + tmsg)
        return bug["id"], "REJECTED " + "; ".join(why)
    finally:
        shutil.rmtree(d)


def hunt(bug, prop=None, tier="quick"):
    d = scratch()
    repo = d + "/repo"
    try:
        prop = prop or json.load(open(os.path.join(SEEDED, bug, "meta.json")))["property"]
        subprocess.check_call(["git", "-C", repo, "apply", os.path.join(SEEDED, bug, "patch.diff")])
        r = subprocess.run(["bash", here + "/check.sh", prop, tier], env=dict(os.environ, VERIF_REPO=repo, VERIF_OUT=d), capture_output=True, text=True)
        keys = [ln[4:].strip() for ln in r.stdout.splitlines() if ln.startswith("--- ")]
        return bug, prop, {0: "MISSED", 1: "caught"}.get(r.returncode, f"exit {r.returncode}"), "; ".join(keys)[:200] if r.returncode < 2 else r.stdout[-800:] + r.stderr[-500:]
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    cmd, args = sys.argv[1], sys.argv[2:]
    if cmd == "new":
        bugs = [b for f in args for b in runpy.run_path(f)["BUGS"]]
        with cf.ThreadPoolExecutor(4) as ex:
            for r in ex.map(make, bugs):
                print(*r, flush=True)
    elif cmd == "hunt":
        ids = args or sorted(os.listdir(SEEDED))
        with cf.ThreadPoolExecutor(2) as ex:
            for r in ex.map(hunt, ids):
                print(*r, flush=True)
