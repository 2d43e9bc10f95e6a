"""mkseed.py SPEC.py: writes /verif/seeded/<id>/ from BUGS = [dict(id, prop, edits=[(file, old, new)], needs, breaks, demo)]."""
import json
import os
import runpy
import subprocess
import sys

SH = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1
exec timeout 280 /opt/venv/bin/python -W ignore "$here/demo.py"
'''
for b in runpy.run_path(sys.argv[1])["BUGS"]:
    d = f"/verif/seeded/{b['id']}"
    os.makedirs(d, exist_ok=True)
    assert not subprocess.run(["git", "-C", "/repo", "status", "--porcelain"],
                              capture_output=True, text=True).stdout.strip()
    for f, old, new in b["edits"]:
        p = f"/repo/{f}"
        s = open(p).read()
        assert s.count(old) == 1, (b["id"], f, s.count(old))
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True).stdout
    subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.sh", "w").write(SH)
    open(d + "/demo.py", "w").write(b["demo"])
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
              open(d + "/meta.json", "w"), indent=1)
    print(b["id"])
