"""trybug.py ID...: confirm planted bugs in scratch copies of /repo: the demo
passes without and fails with the patch, the stable tests pass with it, and
which verdict the property's check gives.  NOTEST=1 skips the tests."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import xml.etree.ElementTree as ET

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def sh(cmd, cwd, env=None):
    e = dict(os.environ, MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="2", PYTHONHASHSEED="0")
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def one(i):
    src = os.path.join(HERE, "seeded", i)
    meta = json.load(open(src + "/meta.json"))
    d = tempfile.mkdtemp(prefix="trybug", dir="/tmp")
    try:
        repo, demo = d + "/repo", d + "/demo"
        shutil.copytree("/repo", repo, symlinks=True)
        shutil.copytree(src, demo, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
        a, o1 = sh(["sh", demo + "/demo.sh"], repo)
        r, o = sh(["git", "apply", src + "/patch.diff"], repo)
        if r:
            return "%s: patch does not apply: %s" % (i, o)
        b, o2 = sh(["sh", demo + "/demo.sh"], repo)
        t = "skipped"
        if not os.environ.get("NOTEST"):
            sh([PY, "-m", "pytest", "tests", "-m", "", "-q", "-p", "no:cacheprovider", "--timeout=120", "-o", "junit_family=xunit2",
                "--junitxml=" + d + "/r.xml"], repo, {"PYTHONPATH": repo + "/src"})
            bad = []
            for c in ET.parse(d + "/r.xml").getroot().iter("testcase"):
                k = c.get("classname") + "::" + c.get("name")
                if k in STABLE and (c.find("failure") is not None or c.find("error") is not None):
                    bad.append(k)
            t = "ok" if not bad else "FAIL " + ", ".join(bad[:3])
        c, o4 = sh(["./check", meta["property"], "quick"], HERE, {"VERIF_REPO": repo, "VERIF_SEED": "1", "VERIF_TIER": "quick"})
        cl = sorted(set(re.findall(r"clauses: (.*)", o4)))[:3]
        n = re.findall(r"(\d+ of \d+) recorded", o4)
        flag = "" if (a, b != 0, t in ("ok", "skipped"), c) == (0, True, True, 1) else "  <<<<"
        return "%s: demo %d/%d tests %s check %d %s %s%s%s" % (
            i, a, b, t, c, n, cl, flag, "" if c == 1 else "\n    " + o4[-300:]) + ("" if a == 0 else "\n   demo: " + o1[-300:])
    finally:
        shutil.rmtree(d, ignore_errors=True)


for i in sys.argv[1:]:
    print(one(i), flush=True)
