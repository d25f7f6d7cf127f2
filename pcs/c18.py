"""C18: no reachable path hits an undefined name, attribute, configuration key or malformed call."""
import ast
from .domain import Domain
from .values import *
from .interp import Program, Interp
from .scen import *
from .report import Broken

RULES = [
    "on every path of every public entry point: no read of a local name that may be unbound on that path, no use of an undefined global or import",
    "no attribute read on an object of the package that some path leaves without that attribute; no getattr(obj, 'name', default) on such an object for a name that no code ever defines",
    "no constant key read from a dictionary the package built itself that lacks the key",
    "no call of a function, method or class of the package with missing, surplus, duplicate or unknown arguments",
    "no attribute read from a value that is always None there",
]
EXPLAIN = ("All functions, constructors, methods and distribution methods are interpreted with every optional argument given, omitted, and given-or-omitted; "
           "correlated branches (same test on unchanged values) are kept apart. Errors caught by an enclosing handler are not reported.")
ASSUME = ["attribute names of external objects (numpy arrays, pandas frames, matplotlib axes) are not checked"]


class Names(Domain):
    def __init__(self, defined):
        super().__init__()
        self.defined = defined
        self.stats = dict(names=set(), attrs=set(), calls=set(), keys=set())
        self.on = False

    def rep(self, rule, exc, node, construct, msg):
        if self.on and not self.I.handled(exc):
            self.report(rule, node, construct, msg)

    def on_unbound(self, name, node, definite):
        self.rep("unbound-name", "NameError", node, f"{self.I.qual()}:{name}", f"local name '{name}' {'is' if definite else 'can be'} unbound here")

    def on_undefined(self, name, node):
        self.rep("undefined-name", "NameError", node, f"{self.I.qual()}:{name}", f"name '{name}' is not defined anywhere")

    def cname(self, obj):
        return obj.cls.name if obj is not None and obj.cls is not None else "object"

    def on_missing_attr(self, obj, name, node, definite):
        self.rep("missing-attribute", "AttributeError", node, f"{self.I.qual()}:{self.cname(obj) + '.' if obj is not None else ''}{name}",
                 f"attribute '{name}' {'is never' if definite else 'may not be'} set on {self.cname(obj)} here")

    def on_missing_key(self, obj, key, node, definite):
        self.rep("missing-key", "KeyError", node, f"{self.I.qual()}:{key!r}", f"key {key!r} {'is not' if definite else 'may not be'} in the dictionary built by the package")

    def on_none_attr(self, name, node, base):
        self.rep("none-attribute", "AttributeError", node, f"{self.I.qual()}:{name}", f"attribute '{name}' of a value that is always None here")

    def on_bind_error(self, qual, msg, node):
        self.rep("bad-call", "TypeError", node, f"{self.I.qual()}->{qual}", f"call of {qual}: {msg}")

    def on_getattr(self, oid, obj, name, v, node):
        if self.on:
            self.stats["attrs"].add((self.cname(obj), name))
        return v

    def enter(self, f, ctx, vals):
        if self.on:
            self.stats["calls"].add((f.qual, self.I.loc(ctx.node) if getattr(ctx, "node", None) is not None else ""))
        return None

    def on_getattr_call(self, recv, name, node, has_default):
        if not self.on or not has_default or not name.isidentifier():
            return
        for a in recv.atoms:
            o = self.I.st.get(a.id) if isinstance(a, Ref) else None
            if o is not None and o.kind == "obj" and o.cls is not None and not o.cls.ext_bases() and name not in o.attrs and o.cls.find(name)[1] is None \
                    and name not in self.defined.get(o.cls.name, EMPTY):
                self.rep("nonexistent-attribute", "AttributeError", node, f"{self.I.qual()}:{o.cls.name}.{name}",
                         f"'{name}' is looked up on {o.cls.name} by name but nothing in the package ever defines it")


def defined_attrs(I, prog):
    """class name -> attribute names some statement of the package stores on it (self.x in its methods; x stored through any other variable counts for every class)"""
    own, anyv = {}, set()
    for mod, tree in prog.trees.items():
        for c in ast.walk(tree):
            if isinstance(c, ast.ClassDef):
                s = own.setdefault(c.name, set())
                s |= {n.attr for n in ast.walk(c) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == "self"}
                s |= {b.id for b in c.bases if isinstance(b, ast.Name)} and set()
            if isinstance(c, ast.Attribute) and isinstance(c.ctx, ast.Store) and not (isinstance(c.value, ast.Name) and c.value.id == "self"):
                anyv.add(c.attr)
    out = {}
    for mod, tree in prog.trees.items():
        for c in ast.walk(tree):
            if isinstance(c, ast.ClassDef):
                seen, todo = set(), [c.name]
                acc = set(anyv)
                while todo:
                    n = todo.pop()
                    if n in seen:
                        continue
                    seen.add(n)
                    acc |= own.get(n, set())
                    for m, t in prog.trees.items():
                        for k in ast.walk(t):
                            if isinstance(k, ast.ClassDef) and k.name == n:
                                todo += [b.id for b in k.bases if isinstance(b, ast.Name)]
                out[c.name] = acc
    return out


def analyse(I, d, scens):
    base = I.st.copy()
    d.on = True
    n = 0
    for s in scens:
        run(I, lambda: s.fn(I), base)
        n += 1
    d.on = False
    return n


def selftest(rep):
    src = """
import numpy as np
CFG = {"a": 1}
class P:
    def __init__(self, x, k=None):
        self.x = x
        if k is not None:
            self.k = k
    def get(self):
        return self.k
    def safe(self):
        return getattr(self, "k", None)
    def wrong(self):
        return getattr(self, "kk", None)
def f(x, flag=False):
    if flag:
        y = 1
    if flag:
        return y
    return CFG["b"]
def g(x, flag=False, other=False):
    if flag:
        y = 1
    if other:
        return y
    return undefined_thing
def h(x):
    return f(x, flg=True)
def ok(x):
    try:
        return CFG["zz"]
    except KeyError:
        return 0
"""
    prog = Program.from_sources({"pycircstat2.zz": src})
    d = Names({})
    I = Interp(prog, d)
    I.load_all()
    d.defined = defined_attrs(I, prog)
    sc = []
    for q in "fgh":
        sc.append(Scen(q, "func", lambda I, q=q: I.call_func(get_func(I, "zz." + q), [], build_args(I, "zz." + q, get_func(I, "zz." + q), "any", {"flag": V([T("bool")], frozenset(["flag"])), "other": V([T("bool")], frozenset(["other"]))} if q != "h" else {}), None)))
    sc.append(Scen("ok", "func", lambda I: I.call_func(get_func(I, "zz.ok"), [], {"x": ANY}, None)))
    for m in ("get", "safe", "wrong"):
        sc.append(Scen(m, "m", lambda I, m=m: method(I, construct(I, "zz.P"), m, "zz.P")))
    analyse(I, d, sc)
    got = set(d.findings)
    need = {("missing-key", "zz.f:'b'"), ("unbound-name", "zz.g:y"), ("undefined-name", "zz.g:undefined_thing"), ("bad-call", "zz.h->zz.f"),
            ("missing-attribute", "zz.P.get:P.k"), ("nonexistent-attribute", "zz.P.wrong:P.kk")}
    if got != need:
        raise Broken(f"self-test: {got ^ need}")
    rep.cov["selftest_positive"] = sorted(map(str, got))


def check(prog, rep, tier):
    d = Names({})
    I = Interp(prog, d, max_steps=200_000_000)
    d.on = True
    I.load_all()
    d.defined = defined_attrs(I, prog)
    n = analyse(I, d, all_scens(("any", "given", "default")))
    rep.take(d)
    rep.cov["functions_entered"] = len(I.called)
    rep.floor("scenarios", n, 500)
    rep.floor("call_edges", len(d.stats["calls"]), 100)
    rep.floor("object_attributes_read", len(d.stats["attrs"]), 100)
