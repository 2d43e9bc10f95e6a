"""HiGHS in a helper process (python3-vt has scipy, the calliope venv does not).

Parent side: `solve(problem)`; child side: `python3-vt helper.py` reads pickled problems from
stdin.  Problem: see reflp.LP.dump.  Answer: {"status": ..., "obj": float, "x": [...]}
"""
import os
import pickle
import struct
import subprocess
import sys

_proc = None


def _start():
    global _proc
    if _proc is None or _proc.poll() is not None:
        env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
        env["OMP_NUM_THREADS"] = "1"
        exe = "/opt/veriftools/pyvenv/bin/python"
        if not os.path.exists(exe):
            exe = "python3-vt"
        _proc = subprocess.Popen([exe, os.path.abspath(__file__)], stdin=subprocess.PIPE,
                                 stdout=subprocess.PIPE, env=env)
    return _proc


def ask(msg):
    from harness.core import HarnessError

    p = _start()
    try:
        data = pickle.dumps(msg)
        p.stdin.write(struct.pack("<Q", len(data)) + data)
        p.stdin.flush()
        n = struct.unpack("<Q", p.stdout.read(8))[0]
        out = pickle.loads(p.stdout.read(n))
    except (OSError, struct.error, EOFError) as exc:
        raise HarnessError(f"solver helper failed: {exc}") from exc
    if isinstance(out, dict) and out.get("error"):
        raise HarnessError("solver helper: " + out["error"])
    return out


def solve(problem):
    return ask(problem)


def _solve(p):
    import numpy as np
    from scipy.optimize import Bounds, LinearConstraint, milp
    from scipy.sparse import csr_matrix

    nv = len(p["lo"])
    c = np.zeros(nv)
    for k, v in p["obj"].items():
        c[k] = v
    rows, cols, vals, lo, hi = [], [], [], [], []
    r = 0
    for cc, vv, a, b in p["rows"]:
        if not cc:
            if a > 1e-7 or b < -1e-7:
                return {"status": "infeasible"}
            continue
        rows += [r] * len(cc)
        cols += cc
        vals += vv
        lo.append(a)
        hi.append(b)
        r += 1
    if any(a > b + 1e-12 for a, b in zip(p["lo"], p["hi"])):
        return {"status": "infeasible"}
    cons = ()
    if r:
        A = csr_matrix((vals, (rows, cols)), shape=(r, nv))
        cons = LinearConstraint(A, np.array(lo), np.array(hi))

    def go(c):
        return milp(c, integrality=np.array(p["int"]), bounds=Bounds(p["lo"], p["hi"]),
                    constraints=cons, options={"time_limit": 60, "mip_rel_gap": 1e-9})

    res = go(c)
    if res.status == 0:
        return {"status": "optimal", "obj": float(c @ res.x), "x": [float(v) for v in res.x]}
    if res.status == 1:
        return {"status": "limit"}
    z = go(np.zeros(nv))
    if z.status == 0:
        return {"status": "unbounded"}
    return {"status": "infeasible" if z.status in (2, 4) else "limit"}


def main():
    inp, out = sys.stdin.buffer, sys.stdout.buffer
    while True:
        h = inp.read(8)
        if len(h) < 8:
            return
        msg = pickle.loads(inp.read(struct.unpack("<Q", h)[0]))
        try:
            if isinstance(msg, list):
                ans = [_solve(m) for m in msg]
            else:
                ans = _solve(msg)
        except Exception as exc:  # noqa: BLE001
            ans = {"error": repr(exc)}
        data = pickle.dumps(ans)
        out.write(struct.pack("<Q", len(data)) + data)
        out.flush()


if __name__ == "__main__":
    main()
