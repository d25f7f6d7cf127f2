"""C01: caller-owned data is never modified (alias and mutation-effect analysis)."""
from .domain import Domain
from .values import *
from .interp import Program, Interp
from .scen import *
from .report import Broken

RULES = ["no in-place operation (item/attribute/augmented assignment, del, mutating list/dict/set/ndarray method, out=, "
         "overwrite_*, numpy in-place function, rng.shuffle) may reach an object whose memory regions include a caller's "
         "argument, a default argument value, or a non-empty module-level container"]
EXPLAIN = ("Whole-package abstract interpretation of every public entry point with memory regions: each argument, default "
           "value and module-level container is a region; views (asarray, ravel, slices, broadcast_to, ...) keep the region, "
           "copies drop it; every in-place effect is checked against the regions its target may belong to, through calls, "
           "attributes, closures and stored state.")
ASSUME = ["numpy/scipy/pandas functions have the aliasing recorded in pcs/extmodel.py", "external functions not modelled as in-place do not modify their arguments"]

# deliberate, documented outputs: circ_plot attaches the density curve it drew to the Circular object it plots
ALLOWED_ATTRS = {("arg:circ_data", "density_x"), ("arg:circ_data", "density_f"), ("arg:self", "density_x"), ("arg:self", "density_f")}


class Mut(Domain):
    def __init__(self):
        super().__init__()
        self.checked = set()

    def bad(self, r):
        if r.startswith(("arg:", "default:")):
            return True
        if r.startswith("global:"):
            return r in self.constants
        return False

    constants = frozenset()

    def on_mutate(self, regions, how, node, base):
        if self.quiet:
            return
        self.checked.add((self.I.loc(node), getattr(node, "col_offset", 0)))
        for r in sorted(regions):
            if not self.bad(r):
                continue
            if how.startswith("attribute assignment .") and (r, how[22:]) in ALLOWED_ATTRS:
                continue
            self.report("mutation", node, f"{self.I.qual()}:{r}", f"{how} can modify {r}")


def constants(I):
    """module-level containers that are non-empty after import"""
    out = set()
    for m, fid in I.modframes.items():
        for k, v in I.st.get(fid).attrs.items():
            for a in v.atoms:
                if isinstance(a, T) and a.t in ("arr", "any", "seq"):
                    out.add(f"global:{m.split('.')[-1]}.{k}")
                if isinstance(a, Ref):
                    o = I.st.get(a.id)
                    if o is not None and o.kind in ("list", "dict", "set") and (o.attrs or o.items or o.elem is not None):
                        out.add(f"global:{m.split('.')[-1]}.{k}")
    return frozenset(out)


def selftest(rep):
    src = """
import numpy as np
CFG = {"a": [1]}
def f(alpha, w=None, acc=[]):
    x = np.asarray(alpha).ravel()
    x[x < 0] += 1.0
    acc.append(1)
    CFG["a"].append(2)
    return x
"""
    d = Mut()
    I = Interp(Program.from_sources({"pycircstat2.zz": src}), d)
    I.load_all()
    d.constants = constants(I)
    call_entry(I, "zz.f")
    got = {f["construct"].split(":", 1)[1] for f in d.findings.values()}
    need = {"arg:alpha", "default:zz.f(acc)", "global:zz.CFG"}
    if not need <= got:
        raise Broken(f"self-test: expected {need}, found {got}")
    rep.cov["selftest_positive"] = sorted(got)


def check(prog, rep, tier):
    d = Mut()
    I = Interp(prog, d, max_steps=80_000_000)
    I.load_all()
    d.constants = constants(I)
    st = run_all(I, all_scens(("any",) if tier == "quick" else ("any", "given", "default")))
    # the same calls with every array-like argument given as a list
    I.listargs = True
    I.__dict__.pop("fitcache", None)
    st2 = run_all(I, fn_scens(("any",)) + class_scens(("any",), queries=False))
    rep.take(d)
    rep.floor("scenarios", st["scenarios"], 400)
    rep.floor("scenarios_with_lists", st2["scenarios"], 70)
    rep.floor("scenarios_with_lists_completed", st2["completed"], 60)
    rep.floor("functions_entered", len(I.called), 380)
    rep.floor("mutation_sites_with_tracked_regions", len(d.checked), 5)
    rep.cov["module_constants"] = sorted(d.constants)
