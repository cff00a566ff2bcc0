"""Development tool: python3 tools/mkseed.py SPEC.py [ids]   (never used by a check)

SPEC.py defines SEEDS = [dict(id, property, edits=[(file, old, new)], demo, needs, breaks)].
Each change is made in a scratch copy of /repo, written to seeded/<id>/ and validated
with reseed.one(); it is kept unless the tests or the demo speak against it."""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import reseed   # noqa: E402

V = reseed.V


def make(s):
    d = os.path.join(V, "seeded", s["id"])
    tmp = tempfile.mkdtemp(prefix="mk_", dir="/tmp")
    try:
        r = tmp + "/repo"
        reseed.sh("git clone -q /repo %s" % r)
        for f, old, new in s["edits"]:
            p = os.path.join(r, f)
            t = open(p, newline="").read()
            if "\r\n" in t:
                old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            if t.count(old) != 1:
                return s["id"], "BAD edit matches %d times in %s: %r" % (t.count(old), f, old[:60])
            open(p, "w", newline="").write(t.replace(old, new))
        diff = subprocess.run("git -C %s diff" % r, shell=True, capture_output=True).stdout
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "wb").write(diff)
        open(os.path.join(d, "demo.py"), "w").write(s["demo"].lstrip("\n"))
        open(os.path.join(d, "demo.sh"), "w").write(
            '#!/bin/bash\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" timeout 120 python3 "$(dirname "$0")/demo.py"\n')
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        # which of the removed lines are original
        blame = []
        for f in {e[0] for e in s["edits"]}:
            b = reseed.sh("git -C %s blame -s HEAD -- %s" % (r, f)).stdout.split("\n")
            base = reseed.sh("git -C %s rev-list --max-parents=0 HEAD" % r).stdout[:7]
            old = 0
            for ln in diff.decode().split("\n"):
                if ln.startswith("@@"):
                    old = int(ln.split()[1].split(",")[0][1:])
                elif ln.startswith("-") and not ln.startswith("---"):
                    if len({e[0] for e in s["edits"]}) == 1 and not b[old - 1].lstrip("^").startswith(base[:6]):
                        blame.append(old)
                    old += 1
                elif ln.startswith(" "):
                    old += 1
        res = reseed.one(s["id"])
        msg = " | ".join(res[2])
        if any(x in msg for x in ("DEMO-", "TESTS-", "DOES-NOT")):
            shutil.rmtree(d)
            msg = "BAD " + msg
        if blame:
            msg += " | REMOVES-OWN-LINES %s" % blame
        return s["id"], s["property"], msg
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    spec = runpy.run_path(sys.argv[1])["SEEDS"]
    want = {a for a in sys.argv[2:] if not a.startswith("-")}
    spec = [s for s in spec if not want or s["id"] in want]
    with ThreadPoolExecutor(4) as ex:
        for r in ex.map(make, spec):
            print(*r, flush=True)


if __name__ == "__main__":
    main()
