"""Build seeded/<id>/ from a bug description (used while planting bugs).

A description file is Python defining BUGS = [dict(id, prop, file, edits=[(old, new)...],
needs, breaks, demo)] where demo is the body of a Python program that must
exit non-zero (assert) on the changed code only."""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile
import textwrap

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for fn in sys.argv[1:]:
    for b in runpy.run_path(fn)["BUGS"]:
        d = tempfile.mkdtemp(prefix="mkbug")
        subprocess.run(["git", "clone", "-q", "/repo", d + "/r"], check=True)
        files = b["file"] if isinstance(b["file"], list) else [b["file"]] * len(b["edits"])
        for f, (old, new) in zip(files, b["edits"]):
            p = d + "/r/src/ff/" + f
            s = open(p).read()
            if s.count(old) != 1:
                print(b["id"], "edit matches", s.count(old), "times:", old[:60])
            s = s.replace(old, new, 1)
            open(p, "w").write(s)
        diff = subprocess.run(["git", "-C", d + "/r", "diff"], stdout=subprocess.PIPE, text=True).stdout
        out = os.path.join(HERE, "seeded", b["id"])
        os.makedirs(out, exist_ok=True)
        open(out + "/patch.diff", "w").write(diff)
        open(out + "/demo.py", "w").write(textwrap.dedent(b["demo"]).lstrip())
        open(out + "/demo.sh", "w").write(
            '#!/bin/sh\n# run in the repository: exit 0 when the property holds\nd=$(cd "$(dirname "$0")" && pwd)\n'
            'PY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3\n'
            'MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src" exec "$PY" "$d/demo.py"\n')
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        shutil.rmtree(d)
        print("wrote", b["id"])
