"""Reports, known findings, evidence."""
import json
import os
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known_findings.txt")


class Report:
    def __init__(self, pid):
        self.pid = pid
        self.viol = {}       # key -> dict
        self.counts = {}
        self.samples = []
        self.undecided = []
        self.rules = []
        self.assume = []

    def rule(self, text):
        if text not in self.rules:
            self.rules.append(text)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def sample(self, s, cap=8):
        if len(self.samples) < cap:
            self.samples.append(s)

    def undecide(self, what):
        self.undecided.append(what)

    def violate(self, rule, where, construct, detail):
        """key is stable under line moves: rule + construct"""
        key = "%s | %s" % (rule, construct)
        if key not in self.viol:
            self.viol[key] = dict(rule=rule, where=where, construct=construct, detail=detail, key=key)


def known_for(pid):
    out = {}
    if os.path.exists(KNOWN):
        for ln in open(KNOWN, encoding="utf-8"):
            ln = ln.rstrip("\n")
            if ln.startswith("known: property=%s " % pid):
                rest = ln.split(" ", 2)[2]
                key, _, what = rest.partition(" :: ")
                out[key.strip()] = what.strip()
    return out


def finish(rep, tier, t0, level, explanation, assumptions):
    known = known_for(rep.pid)
    news = [v for k, v in rep.viol.items() if k not in known]
    olds = [(v, known[k]) for k, v in rep.viol.items() if k in known]
    for v, what in olds:
        print("KNOWN-FINDING: property=%s %s (%s)" % (rep.pid, what, v["where"]))
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    cov = dict(explanation=explanation, rules=rep.rules, **rep.counts)
    cov["samples"] = rep.samples
    cov["undecided_constructs"] = rep.undecided[:40]
    cov["known_findings_reported"] = [v["key"] for v, _ in olds]
    cov["violating_constructs"] = [dict(v) for v in news][:50]
    ev = dict(property=rep.pid, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=assumptions + rep.assume, wall_s=round(time.time() - t0, 3),
              violations=len(news))
    edir = os.path.join(VERIF, "evidence")
    if os.environ.get("SA_NOEVIDENCE"):      # development runs on scratch copies
        edir = "/tmp/sa_evidence_%d" % os.getpid()
    os.makedirs(edir, exist_ok=True)
    with open(os.path.join(edir, rep.pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
        fh.write("\n")
    if news:
        path = os.path.join(edir, "%s.violations.txt" % rep.pid)
        with open(path, "w") as fh:
            for v in news:
                fh.write("rule:      %(rule)s\nwhere:     %(where)s\nconstruct: %(construct)s\ndetail:    %(detail)s\nkey:       %(key)s\n\n" % v)
        for v in news[:25]:
            print("  [%s] %s: %s -- %s" % (v["rule"], v["where"], v["construct"], v["detail"]))
        print("VIOLATION property=%s replay=%s" % (rep.pid, path))
        return 1
    n = rep.counts.get("obligations", 0)
    print("OK property=%s obligations=%d undecided=%d known=%d (%.1fs)" % (
        rep.pid, n, len(rep.undecided), len(olds), time.time() - t0))
    return 0
