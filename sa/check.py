"""python3 /verif/sa/check.py <property id>   (VERIF_TIER, VERIF_SEED)"""
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True

from sa.core import Report, finish          # noqa: E402
from sa.program import AnalysisBroken       # noqa: E402


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    t0 = time.time()
    from sa import props
    chk = props.CHECKS[pid]
    rep = Report(pid)
    try:
        chk["fn"](rep, tier)
    except AnalysisBroken as e:
        print("ANALYSIS-ERROR property=%s %s" % (pid, e))
        return 3
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-ERROR property=%s internal" % pid)
        return 4
    return finish(rep, tier, t0, chk.get("level", "other"), chk["explanation"], chk.get("assumptions", []))


if __name__ == "__main__":
    sys.exit(main())
