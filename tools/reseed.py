"""Development tool: re-validates every seeded change in scratch copies of /repo (in parallel):
patch applies, builds, stable tests pass, demo tells apart, and which checks report it.
usage: reseed.py [-a] [ids]   (-a: run every check, not only the one of its property)"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, cwd=None, env=None):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, cwd=cwd, env=dict(os.environ, **(env or {})))


def one(sid):
    d = os.path.join(V, "seeded", sid)
    meta = json.load(open(d + "/meta.json"))
    tmp = tempfile.mkdtemp(prefix="seed_", dir="/tmp")
    r = tmp + "/repo"
    out = []
    try:
        sh("cp -a /repo %s" % r)
        sh("git checkout -q -- .", cwd=r)
        r0 = sh("bash %s/demo.sh" % d, cwd=r)
        if r0.returncode:
            out.append("DEMO-FAILS-UNCHANGED " + (r0.stdout + r0.stderr).strip()[-200:])
        if sh("git apply %s/patch.diff" % d, cwd=r).returncode:
            return sid, meta["property"], ["DOES-NOT-APPLY"]
        sh("PYTHONPATH=%s /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors -n 2 "
           "--doctest-modules --ignore-glob='*/tests/benchmarks' -o junit_family=xunit2 --junitxml=%s/j.xml pydatastructs; "
           "/usr/bin/python3 /opt/vp/results.py %s/o.json junit:%s/j.xml" % (r, tmp, tmp, tmp), cwd=r)
        try:
            ok = set(json.load(open(tmp + "/o.json"))["passed"])
            miss = [x for x in json.load(open("/opt/vp/BASELINE.json"))["stable"] if x not in ok]
        except Exception as e:
            miss = [repr(e)]
        if miss:
            out.append("TESTS-FAIL %s" % miss[:3])
        r1 = sh("bash %s/demo.sh" % d, cwd=r)
        if r1.returncode == 0:
            out.append("DEMO-PASSES-CHANGED")
        pids = [meta["property"]]
        if "-a" in sys.argv:
            pids = [c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]
        hits = []
        for p in pids:
            c = sh("python3 %s/sa/check.py %s" % (V, p), cwd=V, env={"SA_REPO": r, "SA_NOEVIDENCE": "1"})
            if c.returncode == 1:
                hits.append(p)
            elif c.returncode:
                hits.append("%s=exit%d" % (p, c.returncode))
        out.append("caught by " + ",".join(hits) if hits else "MISSED")
        return sid, meta["property"], out
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(V + "/seeded"))
    with ThreadPoolExecutor(4) as ex:
        for r in ex.map(one, ids):
            print(*r[:2], "|", " | ".join(r[2]), flush=True)


if __name__ == "__main__":
    main()
