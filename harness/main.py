"""Entry point of every check: shards the search over worker processes and reports."""
import json
import os
import pathlib
import subprocess
import sys
import tempfile
import time

HERE = pathlib.Path(__file__).resolve().parent
ROOT = HERE.parent
sys.path.insert(0, str(ROOT))
from harness import boot, core  # noqa: E402

NWORKERS = int(os.environ.get("VERIF_WORKERS", min(8, os.cpu_count() or 1)))


def known(pid):
    f = ROOT / "known_findings.json"
    if not f.exists():
        return []
    return [k for k in json.loads(f.read_text())["known"] if k["property"] == pid]


def write_replay(pid, case, msg):
    out = ROOT / "out"
    out.mkdir(exist_ok=True)
    path = out / f"{pid}-{core.case_hash(case)[:12]}.json"
    path.write_text(
        json.dumps({"property": pid, "message": msg, "case": case}, indent=1, default=str)
    )
    return path


def replay(pid, path):
    boot.ensure()
    core.quiet()
    mod = core.load(pid)
    if hasattr(mod, "setup"):
        mod.setup("quick")
    case = json.loads(pathlib.Path(path).read_text())["case"]
    try:
        core.run_one(mod, case)
    except Exception as exc:  # noqa: BLE001
        kind, msg = core.classify(exc)
        print(msg)
        if kind == "violation":
            print(f"VIOLATION property={pid} replay={path}")
            if os.environ.get("VERIF_TB"):
                raise
            return 1
        return 2
    print("replay passes")
    return 0


def known_replay(pid, entry):
    """Runs the recorded case of a known finding in its own process; True if it still fails."""
    with tempfile.NamedTemporaryFile("w", suffix=".json", delete=False) as f:
        json.dump({"case": entry["case"]}, f)
    env = dict(os.environ, VERIF_KNOWN="1")
    p = subprocess.run(
        [sys.executable, str(HERE / "main.py"), pid, "--replay", f.name],
        capture_output=True, text=True, env=env, cwd=ROOT,
    )
    os.unlink(f.name)
    return p.returncode, p.stdout


def main():
    pid = sys.argv[1]
    if "--replay" in sys.argv:
        return replay(pid, sys.argv[sys.argv.index("--replay") + 1])
    if "--worker" in sys.argv:
        i = sys.argv.index("--worker")
        idx, n, seed, tier, out = sys.argv[i + 1 : i + 6]
        core.worker(pid, int(idx), int(n), int(seed), tier, out)
        return 0
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    boot.ensure()
    t0 = time.time()
    mod = core.load(pid)
    scratch = tempfile.mkdtemp(prefix=f"verif-{pid}-")
    procs = []
    try:
        for i in range(NWORKERS):
            wdir = os.path.join(scratch, f"w{i}")
            os.makedirs(wdir)
            env = dict(
                os.environ, TMPDIR=wdir, PYTHONHASHSEED=str(i), PYTHONDONTWRITEBYTECODE="1",
                OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", VERIF_WDIR=wdir, VERIF_WIDX=str(i),
                PYTHONPATH="", VERIF_TIER=tier, VERIF_SEED=str(seed),
            )
            out = os.path.join(scratch, f"r{i}.json")
            log = open(os.path.join(scratch, f"log{i}"), "w")
            procs.append(
                (
                    subprocess.Popen(
                        [sys.executable, str(HERE / "main.py"), pid, "--worker", str(i),
                         str(NWORKERS), str(seed), tier, out],
                        env=env, cwd=wdir, stdout=log, stderr=log, stdin=subprocess.DEVNULL,
                    ),
                    out,
                )
            )
        hard = mod.SECONDS[tier] + (300 if tier == "quick" else 1200)
        hit = None
        while any(p.poll() is None for p, _ in procs):
            time.sleep(0.2)
            now = time.time()
            if hit is None and any(os.path.exists(o + ".hit") for _, o in procs):
                hit = now
            if hit is not None:
                # somebody is shrinking a failure: stop those that found nothing
                if any(p.poll() is not None and os.path.exists(o + ".hit") for p, o in procs):
                    if now - hit > 5:
                        for p, o in procs:
                            if p.poll() is None:
                                p.kill()
            if now - t0 > hard:
                for p, _ in procs:
                    if p.poll() is None:
                        p.kill()
        results, errors, lost = [], [], 0
        for i, (p, out) in enumerate(procs):
            if os.path.exists(out):
                results.append(json.load(open(out)))
            else:
                lost += 1
                log = open(os.path.join(scratch, f"log{i}")).read()[-3000:]
                if hit is None:
                    errors.append(f"worker {i} rc={p.returncode}: {log}")
    finally:
        for p, _ in procs:
            if p.poll() is None:
                p.kill()
        core.scratch_clean(scratch)

    for entry in known(pid):
        rc, text = known_replay(pid, entry)
        if rc == 1:
            print(f"KNOWN-FINDING: property={pid} {entry['what']}")

    viols = [r["violation"] for r in results if r["violation"]]
    errors += [
        r["harness_error"]["msg"] + "\ncase: " + core.dumps(r["harness_error"]["case"])[:3000]
        for r in results
        if r["harness_error"]
    ]
    nontrivial, labels, samples = set(), {}, []
    for r in results:
        nontrivial |= set(r["nontrivial"])
        for k, v in r["labels"].items():
            labels[k] = labels.get(k, 0) + v
        samples += r["samples"]
    samples = sorted(samples, key=lambda s: len(core.dumps(s)))
    samples = [s for s in samples if len(core.dumps(s)) < 6000][-3:] or samples[:1]
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(r["evaluations"] for r in results),
            "distinct_nontrivial": len(nontrivial),
            "rule": mod.RULE,
            "samples": samples,
            "labels": dict(sorted(labels.items())),
            "workers": NWORKERS,
            "workers_stopped_by_time_budget": sum(r["stopped_early"] for r in results),
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viols),
    }
    (ROOT / "evidence").mkdir(exist_ok=True)
    (ROOT / "evidence" / f"{pid}.json").write_text(json.dumps(evidence, indent=1, default=str))
    cov = evidence["coverage"]
    print(
        f"{pid} tier={tier} seed={seed}: {cov['evaluations']} cases, "
        f"{cov['distinct_nontrivial']} distinct non-trivial, {evidence['wall_s']} s"
    )
    if viols:
        v = min(viols, key=lambda v: len(core.dumps(v["case"])))
        path = write_replay(pid, v["case"], v["msg"])
        print(v["msg"][:3000])
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    if errors:
        print("HARNESS ERROR\n" + errors[0])
        return 2
    if cov["distinct_nontrivial"] == 0:
        print("HARNESS ERROR: nothing explored")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
