"""Validation of planted bugs: `seed.py validate ID...` / `seed.py catch ID...`.

validate: scratch copy of /repo, demo passes on it, patch applies, build imports, demo fails,
stable tests pass.  catch: apply the patch to /repo, run the property's quick check, undo.
"""
import json
import os
import shutil
import subprocess
import sys

SEEDS = "/verif/seeded"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def demo(id_, cwd, extern):
    # the folder is laid elsewhere, without the patch and meta.json
    shutil.rmtree(extern, ignore_errors=True)
    shutil.copytree(f"{SEEDS}/{id_}", extern,
                    ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
    env = dict(os.environ, PYTHONPATH=f"{cwd}/src", PYTHONDONTWRITEBYTECODE="1")
    r = sh(f"timeout 300 bash {extern}/demo.sh", cwd=cwd, env=env)
    shutil.rmtree(extern, ignore_errors=True)
    return r


def validate(id_, tests=True):
    w = f"/tmp/seed-{id_}"
    shutil.rmtree(w, ignore_errors=True)
    sh(f"cp -a /repo {w}")
    try:
        r = demo(id_, w, f"/tmp/seeddemo-{id_}")
        if r.returncode:
            return f"{id_}: demo fails on the clean tree: {(r.stdout + r.stderr)[-600:]}"
        r = sh(f"git apply {SEEDS}/{id_}/patch.diff", cwd=w)
        if r.returncode:
            return f"{id_}: patch does not apply: {r.stderr[:300]}"
        r = demo(id_, w, f"/tmp/seeddemo-{id_}")
        if not r.returncode:
            return f"{id_}: demo passes with the patch"
        print(id_, "demo says:", (r.stdout + r.stderr).strip().splitlines()[-1:][:1])
        if not tests:
            return None
        env = dict(os.environ, PYTHONPATH=f"{w}/src", PYTHONDONTWRITEBYTECODE="1",
                   PYTHONHASHSEED="0", OMP_NUM_THREADS="1",
                   PATH="/opt/venv/bin:" + os.environ["PATH"])
        sh(f"timeout 1500 /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 "
           f"--continue-on-collection-errors --basetemp={w}-t -n 5 --disable-warnings "
           f"-o addopts=\"--dist=loadscope --strict-markers -m 'not needs_gurobi_license'\" "
           f"-o junit_family=xunit2 --junitxml={w}-j.xml", cwd=w, env=env)
        sh(f"/opt/venv/bin/python /opt/vp/results.py {w}.json junit:{w}-j.xml")
        got = json.load(open(f"{w}.json"))
        base = json.load(open("/opt/vp/BASELINE.json"))
        passed = set(got.get("passed") or [])
        bad = [t for t in base["stable"] if t not in passed]
        if bad:
            return f"{id_}: {len(bad)} stable tests fail: {bad[:5]}"
    finally:
        shutil.rmtree(w, ignore_errors=True)
        shutil.rmtree(w + "-t", ignore_errors=True)
        for x in (w + "-j.xml", w + ".json"):
            if os.path.exists(x):
                os.unlink(x)
    return None


def catch(id_, seeds=(1,)):
    meta = json.load(open(f"{SEEDS}/{id_}/meta.json"))
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "dirty /repo"
    r = sh(f"git -C /repo apply {SEEDS}/{id_}/patch.diff")
    assert not r.returncode, r.stderr
    try:
        for s in seeds:
            env = dict(os.environ, VERIF_SEED=str(s))
            r = sh(f"timeout 890 ./check {meta['property']}", cwd="/verif", env=env)
            out = [x for x in r.stdout.splitlines() if x.strip()]
            print(id_, meta["property"], "seed", s, "exit", r.returncode, "|",
                  " | ".join(x[:160] for x in out[-3:]), flush=True)
    finally:
        sh("git -C /repo checkout -- .")


if __name__ == "__main__":
    what, ids = sys.argv[1], sys.argv[2:] or sorted(os.listdir(SEEDS))
    for i in ids:
        if what == "demo":
            print(i, validate(i, tests=False) or "ok", flush=True)
        elif what == "validate":
            print(i, validate(i) or "VALID", flush=True)
        else:
            catch(i)
