"""Development tool: applies single edits in scratch copies and says which checks react.
usage: tryedits.py SPEC.py [-t]   (SPEC defines E = [(property, file, old, new), ...]; -t also runs the stable tests)"""
import os
import runpy
import shutil
import subprocess
import sys
import tempfile
import json
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, cwd=None, env=None):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, cwd=cwd, env=dict(os.environ, **(env or {})))


def one(a):
    i, (pid, f, old, new) = a
    tmp = tempfile.mkdtemp(prefix="try_", dir="/tmp")
    r = tmp + "/repo"
    try:
        sh("mkdir %s && cp -a /repo/pydatastructs %s/" % (r, r) if "-t" not in sys.argv else "cp -a /repo %s" % r)
        p = r + "/pydatastructs/" + f
        s = open(p, newline="").read()
        crlf = "\r\n" in s
        s = s.replace("\r\n", "\n")
        if s.count(old) < 1:
            return i, pid, f, "EDIT-NOT-FOUND %d" % s.count(old)
        s = s.replace(old, new, 1)
        compile(s, p, "exec")
        open(p, "w", newline="\r\n" if crlf else "\n").write(s)
        out = ""
        if "-t" in sys.argv:
            sh("PYTHONPATH=%s /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors "
               "--doctest-modules --ignore-glob='*/tests/benchmarks' -o junit_family=xunit2 --junitxml=%s/j.xml pydatastructs; "
               "/usr/bin/python3 /opt/vp/results.py %s/o.json junit:%s/j.xml" % (r, tmp, tmp, tmp), cwd=r)
            ok = set(json.load(open(tmp + "/o.json"))["passed"])
            miss = [x for x in json.load(open("/opt/vp/BASELINE.json"))["stable"] if x not in ok]
            out = "tests %s; " % ("ok" if not miss else "FAIL " + str(miss[:2]))
        for p in pid.split(","):
            c = sh("python3 %s/sa/check.py %s" % (V, p), cwd=V, env={"SA_REPO": r, "SA_NOEVIDENCE": "1"})
            last = c.stdout.strip().split("\n")
            out += "%s=%d %s" % (p, c.returncode, last[0][:230])
        return i, pid, f, out
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


E = runpy.run_path(sys.argv[1])["E"]
with ThreadPoolExecutor(4) as ex:
    for i, pid, f, out in ex.map(one, enumerate(E)):
        print("#%d %s %s\n     %s" % (i, pid, f, out), flush=True)
sh("rm -rf /tmp/sa_evidence_*")
