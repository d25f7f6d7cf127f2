"""Driver shared by all checks: analyse /repo's current source, write the evidence file, print the verdict."""
from __future__ import annotations
import json, os, sys, time, importlib, traceback
from .interp import Program, Budget
from .entries import AnchorLost

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PCS_REPO", "/repo")


class Broken(Exception):
    """the analysis itself cannot give a verdict"""


class Report:
    def __init__(self, pid):
        self.pid = pid
        self.findings = {}
        self.cov = {}
        self.rules = []
        self.assume = []

    def add(self, rule, construct, loc, msg, func="", path=""):
        k = f"{rule}|{construct}"
        if k not in self.findings:
            self.findings[k] = dict(key=k, rule=rule, construct=construct, loc=loc, func=func, msg=msg, path=path)

    def take(self, dom):
        for f in dom.findings.values():
            self.add(f["rule"], f["construct"], f["loc"], f["msg"], f["func"], f["path"])

    def floor(self, what, n, least):
        self.cov[what] = n
        if n < least:
            raise Broken(f"only {n} {what} analysed, at least {least} expected: the rule's anchors have vanished")


def known(pid):
    out = {}
    p = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            line = line.rstrip("\n")
            if not line.startswith("finding:"):
                continue
            head, _, text = line[len("finding:"):].partition(" :: ")
            d = dict(x.split("=", 1) for x in head.split(None, 1))
            if d.get("property") == pid:
                out[d["key"].strip()] = text
    return out


def main(pid, tier=None):
    t0 = time.time()
    tier = tier or os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    sys.setrecursionlimit(20000)
    mod = importlib.import_module("pcs." + pid.lower())
    rep = Report(pid)
    try:
        if hasattr(mod, "selftest"):
            mod.selftest(rep)
        prog = Program(REPO)
        rep.cov["modules"] = sorted(prog.trees)
        rep.cov["functions_in_package"] = prog.nfuncs
        mod.check(prog, rep, tier)
    except (AnchorLost, Broken, Budget, SyntaxError, RecursionError) as ex:
        print(f"ANALYSIS-BROKEN property={pid} {type(ex).__name__}: {ex}")
        return 2
    kn = known(pid)
    viol = [f for k, f in rep.findings.items() if k not in kn]
    hits = [k for k in kn if k in rep.findings]
    rep.cov["explanation"] = mod.EXPLAIN
    rep.cov["rules"] = mod.RULES
    rep.cov["violations"] = list(rep.findings.values())
    ev = dict(property=pid, tier=tier, seed=seed, level="other", coverage=rep.cov,
              assumptions=list(getattr(mod, "ASSUME", [])), wall_s=round(time.time() - t0, 2), violations=len(viol))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for k in hits:
        print(f"KNOWN-FINDING: property={pid} {kn[k]}")
    if viol:
        rp = os.path.join(HERE, "evidence", pid + ".report.txt")
        with open(rp, "w") as f:
            for v in viol:
                f.write(f"{v['loc']}: [{v['rule']}] {v['construct']}\n    in {v['func']}\n    {v['msg']}\n    call path: {v['path']}\n")
        for v in viol:
            print(f"{v['loc']}: [{v['rule']}] {v['construct']} -- {v['msg']} (in {v['func']}; path {v['path']})")
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    n = {k: v for k, v in rep.cov.items() if isinstance(v, int)}
    print(f"ok {pid}: {n} wall={ev['wall_s']}s")
    return 0
