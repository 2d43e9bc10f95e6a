"""Builds models in another process with another hash seed.  Parent: ask(spec, opts)."""
import json
import os
import pickle
import struct
import subprocess
import sys

_procs = {}


def ask(seed, spec, opts):
    from harness.core import HarnessError

    p = _procs.get(seed)
    if p is None or p.poll() is not None:
        env = dict(os.environ, PYTHONHASHSEED=str(seed))
        p = _procs[seed] = subprocess.Popen(
            [sys.executable, "-W", "ignore", "-c",
             f"import sys; sys.path[:0] = {sys.path!r}; from harness import hashserver;"
             "hashserver.main()"],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env)
    try:
        data = json.dumps([spec, opts]).encode()
        p.stdin.write(struct.pack("<Q", len(data)) + data)
        p.stdin.flush()
        n = struct.unpack("<Q", p.stdout.read(8))[0]
        return pickle.loads(p.stdout.read(n))
    except (OSError, struct.error, EOFError) as exc:
        raise HarnessError(f"hash seed process failed: {exc}") from exc


def main():
    out = os.fdopen(os.dup(1), "wb")
    os.dup2(2, 1)
    from harness import boot, core, fast, lpcase

    boot.ensure()
    core.quiet()
    fast.all()
    inp = sys.stdin.buffer
    while True:
        h = inp.read(8)
        if len(h) < 8:
            return
        spec, opts = json.loads(inp.read(struct.unpack("<Q", h)[0]))
        try:
            m = lpcase.build_model(spec, opts)
            ans = lpcase.problem(m.backend, exprs=True)
        except Exception as exc:  # noqa: BLE001
            ans = {"error": repr(exc)[:500]}
        data = pickle.dumps(ans)
        out.write(struct.pack("<Q", len(data)) + data)
        out.flush()
