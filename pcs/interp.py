"""Context-sensitive abstract interpreter over the Python syntax tree of /repo/pycircstat2.

Nothing of the analysed package is imported or executed: modules are parsed, module bodies, functions and
methods are interpreted over abstract values (values.V) in an abstract heap (state.State), calls to repository
functions are resolved and inlined, calls to external functions go through models (extmodel.py) and the
analysis-specific domain."""
from __future__ import annotations
import ast, os, math, builtins, itertools
from .values import *
from .state import State, HObj
from . import folding
from .norm import parse as norm_parse

PKG = "pycircstat2"
MAX_DEPTH = 45
LOOP_ITERS = 4


class Dead(Exception):
    """current path cannot continue"""


class Budget(Exception):
    pass


class ClassInfo:
    def __init__(self, name, mod, node):
        self.name, self.mod, self.node = name, mod, node
        self.bases = []        # ClassInfo or external dotted name
        self.attrs = {}        # name -> V
        self.dataclass = False
        self.frozen = False
        self.fields = []       # dataclass fields [(name, default V or None)]

    def mro(self):
        out, seen = [], set()

        def rec(c):
            if id(c) in seen:
                return
            seen.add(id(c))
            out.append(c)
            if isinstance(c, ClassInfo):
                for b in c.bases:
                    rec(b)
        rec(self)
        return out

    def find(self, name):
        for c in self.mro():
            if isinstance(c, ClassInfo) and name in c.attrs:
                return c, c.attrs[name]
        return None, None

    def ext_bases(self):
        return [c for c in self.mro() if isinstance(c, str)]

    def all_fields(self):
        out = []
        for c in reversed([c for c in self.mro() if isinstance(c, ClassInfo)]):
            for f in c.fields:
                out = [g for g in out if g[0] != f[0]] + [f]
        return out

    def __repr__(self):
        return f"<class {self.name}>"


class Ctx:
    """one active call"""
    __slots__ = ("func", "frame", "rets", "pc", "pc_extra", "loops", "node", "yields", "qual", "mod")

    def __init__(self, func, frame, node, qual, mod):
        self.func, self.frame, self.node, self.qual, self.mod = func, frame, node, qual, mod
        self.rets, self.pc, self.pc_extra, self.loops, self.yields = [], [], EMPTY, [], None


class Program:
    """parsed modules; shared between interpreters"""

    @classmethod
    def from_sources(cls, sources):
        """program made of source strings, {module name: text} (self-tests of the checks)"""
        p = cls(None)
        for name, s in sources.items():
            p.src[name] = s
            p.trees[name] = norm_parse(s, name)
            p.paths[name] = "<" + name + ">"
        return p

    def __init__(self, root):
        self.root = root
        self.trees, self.paths, self.src = {}, {}, {}
        self.nfuncs = 0
        if root is None:
            return
        pk = os.path.join(root, PKG)
        for dp, dn, fn in os.walk(pk):
            dn[:] = sorted(d for d in dn if d != "__pycache__")
            for f in sorted(fn):
                if f.endswith(".py"):
                    p = os.path.join(dp, f)
                    rel = os.path.relpath(p, root)
                    name = rel[:-3].replace(os.sep, ".")
                    if name.endswith(".__init__"):
                        name = name[:-9]
                    with open(p, encoding="utf-8") as fh:
                        s = fh.read()
                    self.src[name] = s
                    self.trees[name] = norm_parse(s, p)
                    self.paths[name] = rel
        self.nfuncs = sum(isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda))
                          for t in self.trees.values() for n in ast.walk(t))


BUILTINS = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__package__"}
EXC_NAMES = {n for n in dir(builtins) if isinstance(getattr(builtins, n), type)
             and issubclass(getattr(builtins, n), BaseException)}


class Interp:
    def __init__(self, prog, domain, max_steps=3_000_000):
        from . import extmodel
        self.ext = extmodel
        self.prog = prog
        self.dom = domain
        domain.I = self
        self.modframes = {}
        self.loading = set()
        self.st = State()
        self.ids = itertools.count(1)
        self.ctxs = []
        self.sinks = [[]]
        self.trystack = []
        self.captured = set()
        self.callstack = []
        self.steps = 0
        self.max_steps = max_steps
        self.called = set()       # quals of functions entered
        self.branches = set()
        self.classes = {}         # "mod.Name" -> ClassInfo
        self.nodemod = {}
        self.fallbacks = []
        self.copysite, self.copyroot = {}, {}
        self.builtin_frame = None

    # ------------------------------------------------------------------ helpers
    def newid(self, hint):
        return f"{hint}#{next(self.ids)}"

    def alloc(self, kind, hint="o", **k):
        i = self.newid(hint)
        self.st.new(i, HObj(kind, **k))
        return i

    def ref(self, id, *vs):
        d, c = EMPTY, EMPTY
        for v in vs:
            d |= v.deps
            c |= v.cdeps
        return V([Ref(id)], d, c)

    def loc(self, node):
        ctx = self.ctxs[-1] if self.ctxs else None
        mod = ctx.mod if ctx else None
        path = self.prog.paths.get(mod, "?")
        return f"{path}:{getattr(node, 'lineno', 0)}"

    def qual(self):
        return self.ctxs[-1].qual if self.ctxs else "<module>"

    def path(self):
        return " > ".join(c.qual for c in self.ctxs)

    # ------------------------------------------------------------------ joins
    def join(self, a, b, ctl=None):
        if a is b:
            return a
        if a is None:
            return b
        if b is None:
            return a
        differ = a.sn != b.sn
        if differ and a.atoms == b.atoms and a.consts() is not None and len(a.atoms) == 1:
            differ = False
        atoms = self.join_atoms(a.atoms, b.atoms)
        tag = a.tag if a.tag is b.tag and a.tag is not None else self.dom.join_v(a, b)
        cd = a.cdeps | b.cdeps
        if ctl is not None and differ:
            cd |= ctl.deps | ctl.cdeps
            tag = self.dom.join_control(ctl, a, b, tag)
        return V(atoms, a.deps | b.deps, cd, a.mem | b.mem, tag, a.sn if not differ else None)

    def join_atoms(self, x, y):
        if x == y:
            return x
        out = set()
        tups = {}
        us = []
        for a in itertools.chain(x, y):
            if isinstance(a, Tup):
                tups.setdefault(len(a.items), []).append(a)
            elif isinstance(a, U):
                us.append(a)
            else:
                out.add(a)
        if us:
            f = us[0].facts
            for u in us[1:]:
                f = f & u.facts
            out.add(U(f))
        for L, ts in tups.items():
            t = ts[0]
            for t2 in ts[1:]:
                if t2 != t:
                    t = Tup([self.join(p, q) for p, q in zip(t.items, t2.items)])
            out.add(t)
        return cap_atoms(out)

    def joinall(self, vs):
        out = None
        for v in vs:
            out = self.join(out, v)
        return out if out is not None else NONE

    def join_obj(self, o1, o2, ctl, f1, f2):
        if o1 is o2:
            return o1
        o = HObj(o1.kind, o1.cls, {}, None, None, o1.open or o2.open, o1.info, o1.mem | o2.mem)
        for k in list(o1.attrs) + [k for k in o2.attrs if k not in o1.attrs]:
            a, b = o1.attrs.get(k), o2.attrs.get(k)
            if a is None:
                a = V([U(f1)])
            elif b is None:
                b = V([U(f2)])
            if a is not b:
                a, b = unbound_under(a, f1), unbound_under(b, f2)
            o.attrs[k] = a if a is b else self.join(a, b, ctl)
        if o1.items is not None and o2.items is not None and len(o1.items) == len(o2.items):
            o.items = [p if p is q else self.join(p, q, ctl) for p, q in zip(o1.items, o2.items)]
            o.elem = self.join(o1.elem, o2.elem, ctl)
        else:
            e = None
            for oo in (o1, o2):
                for v in (oo.items or []):
                    e = self.join(e, v, ctl)
                e = self.join(e, oo.elem, ctl)
            if e is not None and ctl is not None:
                e = e.w(cdeps=e.cdeps | ctl.deps | ctl.cdeps)
            o.items, o.elem = None, e
        return o

    def join_states(self, s1, s2, ctl=None):
        if s1 is None:
            return s2
        if s2 is None or s1 is s2:
            return s1
        heap = {}
        f1, f2 = s1.facts, s2.facts
        fid = self.frame() if self.ctxs else None
        if fid is not None:
            o, o2 = s1.heap.get(fid), s2.heap.get(fid)
            if o is not None and o2 is not None and o is not o2:
                heap[fid], f1, f2 = self.join_flagged(fid, o, o2, ctl, f1, f2)
        for k, o in s1.heap.items():
            if k == fid and k in heap:
                continue
            o2 = s2.heap.get(k)
            if o2 is None or o2 is o:
                heap[k] = o
            elif o.kind == "obj":
                heap[k] = self.join_flagged(k, o, o2, ctl, f1, f2)[0]
            else:
                heap[k] = self.join_obj(o, o2, ctl, f1, f2)
        for k, o in s2.heap.items():
            if k not in heap:
                heap[k] = o
        return State(heap, s1.facts & s2.facts)

    def join_flagged(self, fid, o, o2, ctl, f1, f2):
        """join two versions of one object; what is set on one side only is unset under that side's flags"""
        j = self.join_obj(o, o2, ctl, f1, f2)
        us = [k for k, v in j.attrs.items() if any(isinstance(a, U) for a in v.atoms)]
        if j.kind != "obj" or us:
            g1, g2 = self.none_facts(fid, o, o2, j)
            r1, r2 = renamed(fid, o, j), renamed(fid, o2, j)
            if g1 or (us and (r1 or r2)):
                f1, f2 = f1 | g1, f2 | g2
                for k in us:
                    a, b = o.attrs.get(k), o2.attrs.get(k)
                    a = V([U(f1)]) if a is None else unbound_under(a, f1, r1)
                    b = V([U(f2)]) if b is None else unbound_under(b, f2, r2)
                    j.attrs[k] = a if a is b else self.join(a, b, ctl)
        return j, f1, f2

    def contradicted(self, facts):
        """the branch facts under which something is unbound cannot hold here"""
        st = self.st.facts
        for k, p in facts:
            if k[0] == "none":
                fo = self.st.get(k[1])
                v = fo.attrs.get(k[2]) if fo is not None else None
                if v is not None and v.sn == k[3]:
                    none = [isinstance(a, C) and a.v is None for a in v.atoms]
                    if (p and not any(none)) or (not p and all(none)):
                        return True
            elif k[0] == "flag":
                fo = self.st.get(k[1])
                v = fo.attrs.get(k[2]) if fo is not None else None
                if v is not None and v.sn == k[3] and v.atoms and all(isinstance(a, C) and a.v is (not p) for a in v.atoms):
                    return True
            elif (k, not p) in st:
                return True
        return False

    def none_facts(self, fid, o1, o2, o):
        """variables that are None exactly on one side of the join: (facts of side 1, facts of side 2)"""
        g1, g2 = set(), set()
        for k, v in o.attrs.items():
            a, b = o1.attrs.get(k), o2.attrs.get(k)
            if a is None or b is None or a.atoms == b.atoms:
                continue
            na = [isinstance(x, C) and x.v is None for x in a.atoms if not isinstance(x, U)]
            nb = [isinstance(x, C) and x.v is None for x in b.atoms if not isinstance(x, U)]
            if na and nb and all(na) and not any(nb):
                g1.add((("none", fid, k, v.sn), True))
                g2.add((("none", fid, k, v.sn), False))
            elif na and nb and all(nb) and not any(na):
                g1.add((("none", fid, k, v.sn), False))
                g2.add((("none", fid, k, v.sn), True))
            elif na and nb:
                fa, fb = flag_of(a), flag_of(b)
                if fa is not None and fb is (not fa):
                    g1.add((("flag", fid, k, v.sn), fa))
                    g2.add((("flag", fid, k, v.sn), fb))
        return frozenset(g1), frozenset(g2)

    def states_equal(self, s1, s2):
        for k, o in s1.heap.items():
            o2 = s2.heap.get(k)
            if o2 is o or o2 is None:
                continue
            if set(o.attrs) != set(o2.attrs) or (o.items is None) != (o2.items is None):
                return False
            for a in o.attrs:
                if not (o.attrs[a] == o2.attrs[a]):
                    return False
            if o.items is not None and (len(o.items) != len(o2.items) or any(p != q for p, q in zip(o.items, o2.items))):
                return False
            if (o.elem is None) != (o2.elem is None) or (o.elem is not None and o.elem != o2.elem):
                return False
        return True

    # ------------------------------------------------------------------ contents
    def contents(self, v, depth=0):
        """values contained in v (tuples, lists, dicts), else [v]"""
        out = []
        plain = set()
        for a in v.atoms:
            if isinstance(a, Tup):
                for x in a.items:
                    out.append(x)
            elif isinstance(a, Ref):
                o = self.st.get(a.id)
                if o is None:
                    plain.add(a)
                elif o.kind in ("list", "set", "dict"):
                    out.extend(o.items or [])
                    if o.elem is not None:
                        out.append(o.elem)
                    if o.kind == "dict":
                        out.extend(o.attrs.values())
                else:
                    plain.add(a)
            else:
                plain.add(a)
        if plain:
            out.append(v if len(plain) == len(v.atoms) else v.w(atoms=plain))
        return out

    def flat(self, v, depth=0):
        """v with deps/cdeps/mem/tag joined over everything it contains"""
        if depth > 4:
            return v
        simple = True
        for a in v.atoms:
            if isinstance(a, Tup):
                simple = False
            elif isinstance(a, Ref):
                o = self.st.get(a.id)
                if o is not None and o.kind in ("list", "set", "dict"):
                    simple = False
        if simple:
            return v
        d, c, tag, mem = v.deps, v.cdeps, v.tag, v.mem
        xs = []
        for x in self.contents(v):
            if x is v:
                continue
            x = self.flat(x, depth + 1) if x is not v else x
            xs.append(x)
            d |= x.deps
            c |= x.cdeps
            mem |= x.mem
        tag = self.dom.flat_tag(v, xs)
        return V([T("any")] if not v.atoms else v.atoms, d, c, mem, tag)

    def flatdeps(self, *vs):
        d, c = EMPTY, EMPTY
        for v in vs:
            f = self.flat(v)
            d |= f.deps
            c |= f.cdeps
        return d, c

    def regions(self, v):
        """memory regions v may share: its own and those of heap objects it refers to (not contents)"""
        m = v.mem
        for a in v.atoms:
            if isinstance(a, Ref):
                o = self.st.get(a.id)
                if o is not None:
                    m |= o.mem
        return m

    def elem(self, v, node=None):
        """element obtained by iterating over v"""
        out = None
        for a in v.atoms:
            if isinstance(a, Tup):
                for x in a.items:
                    out = self.join(out, x)
            elif isinstance(a, Ref):
                o = self.st.get(a.id)
                if o is None:
                    continue
                if o.kind == "dict":
                    for k in o.attrs:
                        out = self.join(out, const(k))
                    if o.open:
                        out = self.join(out, V([T("str")], v.deps, v.cdeps))
                elif o.kind in ("list", "set"):
                    for x in (o.items or []):
                        out = self.join(out, x)
                    if o.elem is not None:
                        out = self.join(out, o.elem)
                else:
                    out = self.join(out, top("any", v))
            elif isinstance(a, C) and isinstance(a.v, str):
                out = self.join(out, V([T("str")], v.deps, v.cdeps))
            elif isinstance(a, C) and isinstance(a.v, range):
                out = self.join(out, V([T("int")], v.deps, v.cdeps))
            elif isinstance(a, T):
                t = "int" if a.t == "range" else "num" if a.t == "arr" else "any"
                x = V([T(t)], v.deps, v.cdeps, v.mem, None)
                x = x.w(tag=self.dom.iter_elem(v))
                out = self.join(out, x)
        if out is None:
            out = top("any", v, tag=self.dom.iter_elem(v))
        if v.deps - out.deps or v.cdeps - out.cdeps:
            out = out.w(deps=out.deps | v.deps, cdeps=out.cdeps | v.cdeps)
        return out

    def known_items(self, v):
        """list of V if v is one sequence with exactly known items"""
        if len(v.atoms) != 1:
            return None
        a = next(iter(v.atoms))
        if isinstance(a, Tup):
            return list(a.items)
        if isinstance(a, Ref):
            o = self.st.get(a.id)
            if o is not None and o.kind in ("list", "set") and o.items is not None and o.elem is None:
                return list(o.items)
            if o is not None and o.kind == "dict" and not o.open and o.elem is None:
                return [const(k) for k in o.attrs]
        if isinstance(a, C) and isinstance(a.v, range) and len(a.v) <= 12:
            return [const(i) for i in a.v]
        return None

    def mklist(self, items, kind="list", node=None):
        i = self.alloc(kind, kind)
        o = self.st.mut(i)
        if len(items) > 40:
            o.items, o.elem = None, self.joinall(items)
        else:
            o.items = list(items)
        return V([Ref(i)])

    # ------------------------------------------------------------------ truth
    def truth1(self, a):
        if isinstance(a, C):
            try:
                return bool(a.v)
            except Exception:
                return None
        if isinstance(a, (Func, Bound, Ext, ClassA, ModA)):
            return True
        if isinstance(a, Tup):
            return len(a.items) > 0
        if isinstance(a, Ref):
            o = self.st.get(a.id)
            if o is None:
                return None
            if o.kind in ("list", "set"):
                if o.items is not None and o.elem is None:
                    return len(o.items) > 0
                return None
            if o.kind == "dict":
                if any(not any(isinstance(x, U) for x in v.atoms) for v in o.attrs.values()):
                    return True
                if not o.open and o.elem is None and not o.attrs:
                    return False
                return None
            return True
        if isinstance(a, T) and a.t == "callable":
            return True
        return None

    def truth(self, v):
        res = set()
        for a in v.atoms:
            if isinstance(a, U):
                continue
            res.add(self.truth1(a))
        if res == {True}:
            return True
        if res == {False}:
            return False
        return None

    # ------------------------------------------------------------------ frames
    def frame(self):
        return self.ctxs[-1].frame

    def lookup(self, name, node=None):
        fid = self.frame()
        gl = self.ctxs[-1]
        while fid is not None:
            fo = self.st.get(fid)
            if fo is None:
                break
            if fo.info and name in fo.info.get("globals", ()):
                fid = self.modframes.get(gl.mod)
                fo = self.st.get(fid)
            v = fo.attrs.get(name)
            if v is not None:
                us = [a for a in v.atoms if isinstance(a, U)]
                if us:
                    if not self.contradicted(us[0].facts):
                        self.dom.on_unbound(name, node, len(us) == len(v.atoms))
                    rest = v.atoms - frozenset(us)
                    if not rest:
                        return ANY
                    v = v.w(atoms=rest, sn=v.sn)
                return v
            fid = fo.info.get("parent") if fo.info else None
        if name in BUILTINS:
            return V([Ext("builtins." + name)])
        if name in ("__class__",):
            return ANY
        self.dom.on_undefined(name, node)
        return ANY

    def setname(self, name, v, frame=None):
        fid = frame or self.frame()
        fo = self.st.get(fid)
        info = fo.info or {}
        if name in info.get("globals", ()):
            fid = self.modframes[self.ctxs[-1].mod]
            self.dom.on_global_write(name, v)
        elif name in info.get("nonlocals", ()):
            p = info.get("parent")
            while p is not None:
                po = self.st.get(p)
                if po is None:
                    break
                if name in po.attrs:
                    fid = p
                    break
                p = (po.info or {}).get("parent")
        elif info.get("comp") and name in info.get("walrus", ()):
            fid = info.get("parent")
        self.st.mut(fid).attrs[name] = v

    # ------------------------------------------------------------------ modules
    def load(self, name):
        if name in self.modframes:
            return self.modframes[name]
        tree = self.prog.trees[name]
        fid = self.newid("mod:" + name)
        self.modframes[name] = fid
        self.st.new(fid, HObj("module", info={"parent": None, "name": name}))
        self.captured.add(fid)
        ctx = Ctx(None, fid, None, f"{name}.<module>", name)
        self.ctxs.append(ctx)
        old_facts = self.st.facts
        try:
            self.exec_block(tree.body)
            if self.st is None:
                raise RuntimeError(f"module {name} does not complete")
        finally:
            self.ctxs.pop()
        # regions for module-level mutable data
        o = self.st.mut(fid)
        for k, v in list(o.attrs.items()):
            if k.startswith("__"):
                continue
            self.add_region(v, f"global:{name.split('.')[-1]}.{k}", skip_obj=True)
            if any(isinstance(a, T) and a.t in ("arr", "seq", "any") for a in v.atoms):
                o.attrs[k] = v.w(mem=v.mem | {f"global:{name.split('.')[-1]}.{k}"})
        return fid

    def add_region(self, v, region, depth=0, skip_obj=False):
        if depth > 5:
            return
        for a in v.atoms:
            if isinstance(a, Ref):
                o = self.st.get(a.id)
                if o is None or o.kind in ("module", "frame") or region in o.mem:
                    continue
                if o.kind == "obj" and skip_obj:
                    continue
                o = self.st.mut(a.id)
                o.mem = o.mem | {region}
                for x in list(o.attrs.values()) + list(o.items or []) + ([o.elem] if o.elem else []):
                    self.add_region(x, region, depth + 1, skip_obj)
            elif isinstance(a, Tup):
                for x in a.items:
                    self.add_region(x, region, depth + 1, skip_obj)

    def modattr(self, mod, name):
        fid = self.load(mod)
        return self.st.get(fid).attrs.get(name)

    def resolve(self, dotted):
        """'hypothesis.rayleigh_test' or 'clustering.MovM.fit' -> V"""
        parts = dotted.split(".")
        mod = PKG + "." + parts[0]
        if mod not in self.prog.trees:
            return None
        v = self.modattr(mod, parts[1])
        for p in parts[2:]:
            if v is None:
                return None
            a = next(iter(v.atoms))
            if isinstance(a, ClassA):
                _, v = a.cls.find(p)
            else:
                return None
        return v

    def load_all(self):
        for m in self.prog.trees:
            self.load(m)

    # ------------------------------------------------------------------ statements
    def exec_block(self, stmts):
        for s in stmts:
            if self.st is None:
                return
            self.exec_stmt(s)

    def exec_stmt(self, s):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Budget("step budget exhausted")
        m = getattr(self, "s_" + type(s).__name__, None)
        try:
            if m is not None:
                m(s)
        except Dead:
            self.st = None

    def s_Expr(self, s):
        self.eval(s.value)

    def s_Pass(self, s):
        pass

    def s_Import(self, s):
        for a in s.names:
            if a.asname:
                v = self.import_mod(a.name)
                self.setname(a.asname, v)
            else:
                self.setname(a.name.split(".")[0], self.import_mod(a.name.split(".")[0]))

    def import_mod(self, name):
        if name in self.prog.trees:
            self.load(name)
            return V([ModA(name)])
        return V([Ext(name)])

    def s_ImportFrom(self, s):
        mod = self.ctxs[-1].mod
        if s.level:
            is_pkg = self.prog.paths[mod].endswith("__init__.py")
            base = mod.split(".")
            up = s.level - (1 if is_pkg else 0)
            base = base[:len(base) - up] if up else base
            src = ".".join(base + ([s.module] if s.module else []))
        else:
            src = s.module
        for a in s.names:
            nm = a.asname or a.name
            if src in self.prog.trees:
                if src + "." + a.name in self.prog.trees:
                    self.load(src + "." + a.name)
                    self.setname(nm, V([ModA(src + "." + a.name)]))
                    continue
                fid = self.load(src)
                if a.name == "*":
                    for k, v in list(self.st.get(fid).attrs.items()):
                        if not k.startswith("_"):
                            self.setname(k, v)
                    continue
                v = self.st.get(fid).attrs.get(a.name)
                if v is None:
                    if src not in getattr(self, "loading", ()):
                        self.dom.on_undefined(f"{src}.{a.name}", s)
                    v = ANY
                self.setname(nm, v)
            else:
                v = self.ext.ext_attr(self, src, a.name)
                self.setname(nm, v)

    def s_FunctionDef(self, s):
        v = self.mkfunc(s)
        for d in reversed(s.decorator_list):
            v = self.decorate(v, d, s)
        self.setname(s.name, v)

    s_AsyncFunctionDef = s_FunctionDef

    def decorate(self, v, d, s):
        dv = self.eval(d)
        for a in dv.atoms:
            if isinstance(a, Ext):
                n = a.name.split(".")[-1]
                if n in ("property", "cached_property", "staticmethod", "classmethod"):
                    f = next(iter(v.atoms))
                    if isinstance(f, Func):
                        if n == "cached_property":
                            n = "property"
                        return V([Func(f.node, f.mod, f.frame, f.cls, f.qual, f.defaults, f.kwdefaults, n)])
                return v
            if isinstance(a, ExtMeth) and a.name in ("setter", "getter", "deleter"):
                return v
            if isinstance(a, Func):
                return self.call(V([a]), [v], {}, s)
        return v

    def mkfunc(self, s, cls=None):
        a = s.args
        defaults = [self.eval(d) for d in a.defaults]
        kwd = [None if d is None else self.eval(d) for d in a.kw_defaults]
        ctx = self.ctxs[-1]
        name = getattr(s, "name", "<lambda>")
        base = ctx.qual
        if base.endswith(".<module>"):
            base = base[:-9].split(".", 1)[-1] if "." in base[:-9] else base[:-9]
        qual = f"{base}.{name}"
        npos = a.posonlyargs + a.args
        for p, d in zip(npos[len(npos) - len(defaults):], defaults):
            if any(isinstance(x, Ref) for x in d.atoms):
                self.add_region(d, f"default:{qual}({p.arg})")
        for p, d in zip(a.kwonlyargs, kwd):
            if d is not None and any(isinstance(x, Ref) for x in d.atoms):
                self.add_region(d, f"default:{qual}({p.arg})")
        self.captured.add(ctx.frame)
        return V([Func(s, ctx.mod, ctx.frame, cls, qual, tuple(defaults), tuple(kwd))])

    def s_ClassDef(self, s):
        ctx = self.ctxs[-1]
        ci = ClassInfo(s.name, ctx.mod, s)
        for b in s.bases:
            bv = self.eval(b)
            for a in bv.atoms:
                if isinstance(a, ClassA):
                    ci.bases.append(a.cls)
                elif isinstance(a, Ext):
                    ci.bases.append(a.name)
        for d in s.decorator_list:
            dn = d.func if isinstance(d, ast.Call) else d
            dv = self.eval(dn)
            if any(isinstance(a, Ext) and a.name.endswith("dataclass") for a in dv.atoms):
                ci.dataclass = True
                if isinstance(d, ast.Call):
                    for k in d.keywords:
                        if k.arg == "frozen" and isinstance(k.value, ast.Constant):
                            ci.frozen = bool(k.value.value)
        fid = self.newid("class:" + s.name)
        self.st.new(fid, HObj("frame", info={"parent": ctx.frame}))
        c2 = Ctx(None, fid, s, (ctx.qual[:-9].split(".", 1)[-1] if ctx.qual.endswith(".<module>") else ctx.qual) + "." + s.name, ctx.mod)
        self.ctxs.append(c2)
        try:
            for st in s.body:
                if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    # methods do not see the class scope
                    c2.frame = ctx.frame
                    v = self.mkfunc(st, ci)
                    c2.frame = fid
                    for d in reversed(st.decorator_list):
                        v = self.decorate(v, d, st)
                    self.st.mut(fid).attrs[st.name] = v
                elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                    d = self.eval(st.value) if st.value is not None else None
                    if d is not None:
                        self.st.mut(fid).attrs[st.target.id] = d
                    if ci.dataclass:
                        ci.fields.append((st.target.id, d))
                else:
                    self.exec_stmt(st)
        finally:
            self.ctxs.pop()
        ci.attrs = dict(self.st.get(fid).attrs)
        for k, v in ci.attrs.items():
            self.add_region(v, f"classattr:{s.name}.{k}")
        self.classes[f"{ctx.mod.split('.')[-1]}.{s.name}"] = ci
        self.setname(s.name, V([ClassA(ci)]))

    def s_Return(self, s):
        v = self.eval(s.value) if s.value is not None else NONE
        self.do_return(v, s)

    def do_return(self, v, s):
        ctx = self.ctxs[-1]
        pc = self.pcdeps(ctx)
        v = self.dom.on_return(v, s, ctx)
        if pc:
            v = self.control(v, pc)
        ctx.rets.append((self.st, v))
        self.st = None

    def control(self, v, pc, depth=0):
        """v under control dependencies pc (also inside tuples)"""
        if not pc - v.cdeps:
            return v
        atoms = v.atoms
        if depth < 3 and any(isinstance(a, Tup) for a in atoms):
            atoms = frozenset(Tup([self.control(x, pc, depth + 1) for x in a.items]) if isinstance(a, Tup) else a for a in atoms)
        return v.w(atoms=atoms, cdeps=v.cdeps | pc, sn=v.sn)

    def pcdeps(self, ctx):
        pc = ctx.pc_extra
        for p in ctx.pc:
            pc = pc | p
        return pc

    def s_Assign(self, s):
        v = self.eval(s.value)
        for t in s.targets:
            self.assign(t, v, s)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value), s)

    def s_AugAssign(self, s):
        t = s.target
        cur = self.eval(self.as_load(t))
        rhs = self.eval(s.value)
        # in place on mutable left operand
        inplace = self.maybe_mutable(cur)
        regs = self.regions(cur)
        if inplace and regs:
            self.dom.on_mutate(regs, "augmented assignment", s, cur)
        v = self.binop(s.op, cur, rhs, s, aug=True)
        if inplace and cur.mem:
            v = v.w(mem=v.mem | cur.mem)
        refs = [a for a in cur.atoms if isinstance(a, Ref)]
        if refs and isinstance(s.op, ast.Add):
            for a in refs:
                o = self.st.get(a.id)
                if o is not None and o.kind == "list":
                    o = self.st.mut(a.id)
                    e = self.elem(rhs)
                    o.elem = self.join(o.elem, e)
            v = cur
        self.assign(t, v, s)

    def maybe_mutable(self, v):
        for a in v.atoms:
            if isinstance(a, T) and a.t in ("arr", "any", "seq"):
                return True
            if isinstance(a, Ref):
                return True
        return False

    def as_load(self, t):
        import copy
        n = copy.copy(t)
        n.ctx = ast.Load()
        return n

    def assign(self, t, v, s, quiet=False):
        if isinstance(t, ast.Name):
            v = self.dom.on_assign(t.id, v, s)
            self.setname(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, s)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, s)
        elif isinstance(t, ast.Attribute):
            base = self.eval(t.value)
            self.setattr(base, t.attr, v, s)
        elif isinstance(t, ast.Subscript):
            base = self.eval(t.value)
            idx = self.eval(t.slice)
            self.store_sub(t, base, idx, v, s, quiet)

    def unpack(self, elts, v, s):
        n = len(elts)
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        outs = [None] * n
        for a in v.atoms:
            items = None
            if isinstance(a, Tup):
                items = list(a.items)
            elif isinstance(a, Ref):
                o = self.st.get(a.id)
                if o is not None and o.items is not None and o.elem is None:
                    items = list(o.items)
            elif isinstance(a, ExtMeth) and a.name == "shape":
                items = [V([T("int")], v.deps, v.cdeps, EMPTY, v.tag)] * n
            if items is not None and star:
                k = star[0]
                after = n - k - 1
                mid = items[k:len(items) - after]
                items = items[:k] + [self.mklist(mid)] + (items[len(items) - after:] if after else [])
            if items is not None and len(items) == n:
                for i in range(n):
                    outs[i] = self.join(outs[i], items[i])
            elif items is None and not isinstance(a, U) and not (isinstance(a, C) and a.v is None):
                av = v.w(atoms=[a])
                e = self.elem(av)
                for i in range(n):
                    x = self.dom.unpack_elem(av, i, e)
                    outs[i] = self.join(outs[i], x)
        for i, e in enumerate(elts):
            x = outs[i] if outs[i] is not None else top("any", v)
            if v.cdeps - x.cdeps or v.deps - x.deps:
                x = x.w(cdeps=x.cdeps | v.cdeps, deps=x.deps | v.deps)
            self.assign(e.value if isinstance(e, ast.Starred) else e, x, s)

    def setattr(self, base, name, v, s):
        refs = [a for a in base.atoms if isinstance(a, Ref)]
        strong = len(base.atoms) == 1
        done = False
        for a in refs:
            o = self.st.get(a.id)
            if o is None or o.kind not in ("obj", "module"):
                continue
            done = True
            # property setters are not modelled; frozen dataclasses raise
            if o.kind == "obj" and o.cls is not None and o.cls.frozen and not self.in_init_of(a.id):
                self.do_raise("FrozenInstanceError", s)
                continue
            if o.mem:
                self.dom.on_mutate(o.mem, f"attribute assignment .{name}", s, base)
            v2 = self.dom.on_setattr(a.id, o, name, v, s)
            o = self.st.mut(a.id)
            old = o.attrs.get(name)
            o.attrs[name] = v2 if (strong or old is None) else self.join(old, v2)
        if not done:
            regs = self.regions(base)
            if regs:
                self.dom.on_mutate(regs, f"attribute assignment .{name}", s, base)

    def in_init_of(self, id):
        return any(c.qual.endswith("__post_init__") or c.qual.endswith("__init__") for c in self.ctxs)

    def lvalue_update(self, node, fn, depth=0):
        """update the stored value of an lvalue expression (after in-place change)"""
        if depth > 6:
            return
        if isinstance(node, ast.Name):
            fid = self.frame()
            while fid is not None:
                fo = self.st.get(fid)
                if fo is None:
                    return
                if node.id in fo.attrs:
                    self.st.mut(fid).attrs[node.id] = fn(fo.attrs[node.id])
                    return
                fid = (fo.info or {}).get("parent")
        elif isinstance(node, ast.Attribute):
            if node.attr in ("T", "flat", "real", "imag"):
                return self.lvalue_update(node.value, fn, depth + 1)
            base = self.eval_quiet(node.value)
            for a in base.atoms:
                if isinstance(a, Ref):
                    o = self.st.get(a.id)
                    if o is not None and node.attr in o.attrs:
                        self.st.mut(a.id).attrs[node.attr] = fn(o.attrs[node.attr])
        elif isinstance(node, ast.Subscript):
            # element of a list/dict or view of an array
            base = self.eval_quiet(node.value)
            hit = False
            for a in base.atoms:
                if isinstance(a, Ref):
                    o = self.st.get(a.id)
                    if o is not None and o.kind in ("list", "dict"):
                        hit = True
                        o = self.st.mut(a.id)
                        if o.items is not None:
                            o.items = [fn(x) for x in o.items]
                        if o.elem is not None:
                            o.elem = fn(o.elem)
                        ok, k = self.eval_quiet(node.slice).const()
                        if ok and k in o.attrs:
                            o.attrs[k] = fn(o.attrs[k])
            if not hit:
                self.lvalue_update(node.value, fn, depth + 1)

    def eval_quiet(self, node):
        d = self.dom.quiet
        self.dom.quiet = True
        try:
            return self.eval(node)
        finally:
            self.dom.quiet = d

    def store_sub(self, t, base, idx, v, s, quiet=False):
        regs = self.regions(base)
        if regs and not quiet:
            self.dom.on_mutate(regs, "item assignment", s, base)
        elif regs and quiet:
            pass
        v = self.dom.on_store(base, idx, v, s)
        heapish = False
        for a in base.atoms:
            if isinstance(a, Ref):
                o = self.st.get(a.id)
                if o is None:
                    continue
                if o.kind == "dict":
                    heapish = True
                    self.dict_set(a.id, idx, v, len(base.atoms) == 1)
                elif o.kind in ("list",):
                    heapish = True
                    o = self.st.mut(a.id)
                    ok, k = idx.const()
                    if ok and isinstance(k, int) and o.items is not None and -len(o.items) <= k < len(o.items):
                        o.items[k] = v
                    else:
                        if o.items is not None:
                            o.elem = self.join(o.elem, self.joinall(o.items)) if o.items else o.elem
                            o.items = None
                        o.elem = self.join(o.elem, v)
                elif o.kind == "obj":
                    heapish = True
        if not heapish:
            vf = self.flat(v)
            d = vf.deps | idx.deps
            c = vf.cdeps | idx.cdeps | base.cdeps
            tag0 = self.dom.store_tag(base, idx, vf)

            def upd(old):
                tag = self.dom.join_store(old, tag0, idx)
                at = old.atoms
                if self.dom.fold_numeric and any(isinstance(x, C) for x in at):
                    at = frozenset([T("arr") if isinstance(x, C) else x for x in at])
                return old.w(atoms=at, deps=old.deps | d, cdeps=old.cdeps | c, tag=tag)
            self.lvalue_update(t.value, upd)
            if base.mem:
                self.update_aliases(base.mem, upd)

    def update_aliases(self, mem, upd):
        for i in [c.frame for c in self.ctxs[-3:]]:
            o = self.st.get(i)
            if o is None:
                continue
            for k, v in list(o.attrs.items()):
                if v.mem & mem:
                    n = upd(v)
                    if n != v:
                        self.st.mut(i).attrs[k] = n

    def dict_set(self, id, idx, v, strong=True):
        o = self.st.mut(id)
        ks = idx.consts()
        if ks is not None and len(ks) == 1:
            k = ks[0]
            try:
                hash(k)
            except TypeError:
                k = str(k)
            if strong or k not in o.attrs:
                o.attrs[k] = v
            else:
                o.attrs[k] = self.join(o.attrs[k], v)
        else:
            o.elem = self.join(o.elem, v)
            o.open = True

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                base = self.eval(t.value)
                idx = self.eval(t.slice)
                regs = self.regions(base)
                if regs:
                    self.dom.on_mutate(regs, "del item", s, base)
                for a in base.atoms:
                    if isinstance(a, Ref):
                        o = self.st.get(a.id)
                        if o is not None and o.kind == "dict":
                            ok, k = idx.const()
                            if ok and k in o.attrs:
                                del self.st.mut(a.id).attrs[k]
            elif isinstance(t, ast.Name):
                self.st.mut(self.frame()).attrs.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                base = self.eval(t.value)
                for a in base.atoms:
                    if isinstance(a, Ref):
                        o = self.st.get(a.id)
                        if o is not None and o.kind == "obj":
                            self.st.mut(a.id).attrs.pop(t.attr, None)

    def s_Global(self, s):
        o = self.st.mut(self.frame())
        o.info = dict(o.info or {})
        o.info["globals"] = set(o.info.get("globals", ())) | set(s.names)

    def s_Nonlocal(self, s):
        o = self.st.mut(self.frame())
        o.info = dict(o.info or {})
        o.info["nonlocals"] = set(o.info.get("nonlocals", ())) | set(s.names)

    def s_Assert(self, s):
        tv = self.eval(s.test)
        t = self.truth(tv)
        if t is False:
            self.do_raise("AssertionError", s)
            self.st = None
            return
        if t is None:
            st = self.st.copy()
            self.sinks[-1].append((st, "AssertionError", self.path(), s, self.pcdeps(self.ctxs[-1]) | tv.deps | tv.cdeps))
            self.refine(s.test, True)
        self.dom.on_guard(s.test, tv, s)

    def s_Raise(self, s):
        name = "Exception"
        if s.exc is not None:
            v = self.eval(s.exc)
            for a in v.atoms:
                if isinstance(a, Ext):
                    name = a.name.split(".")[-1]
                elif isinstance(a, ClassA):
                    name = a.cls.name
                elif isinstance(a, Ref):
                    o = self.st.get(a.id)
                    if o is not None and o.cls is not None:
                        name = o.cls.name
                elif isinstance(a, ExtMeth) or isinstance(a, T):
                    n = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
                    name = n.attr if isinstance(n, ast.Attribute) else getattr(n, "id", "Exception")
        else:
            name = "reraise"
        self.do_raise(name, s)
        self.st = None

    def do_raise(self, name, s):
        if not self.ctxs:
            self.sinks[-1].append((self.st.copy(), name, "", s, EMPTY))
            return
        ctx = self.ctxs[-1]
        pc = EMPTY
        for c in self.ctxs:
            pc = pc | self.pcdeps(c)
        self.dom.on_raise(name, s)
        self.sinks[-1].append((self.st.copy(), name, self.path(), s, pc))

    def s_If(self, s):
        self.branches.add((self.ctxs[-1].mod, s.lineno))
        tv = self.eval(s.test)
        t = self.truth(tv)
        self.dom.on_branch(s, tv, t)
        if t is True:
            self.refine(s.test, True)
            self.exec_block(s.body)
            return
        if t is False:
            self.refine(s.test, False)
            self.exec_block(s.orelse)
            return
        self.branch(s.test, tv, lambda: self.exec_block(s.body), lambda: self.exec_block(s.orelse))

    def factkey(self, test):
        """stable key of a condition over current variable versions"""
        try:
            names = []
            for n in ast.walk(test):
                if isinstance(n, ast.Name):
                    fid = self.frame()
                    v = None
                    while fid is not None:
                        fo = self.st.get(fid)
                        if fo is None:
                            break
                        v = fo.attrs.get(n.id)
                        if v is not None:
                            break
                        fid = (fo.info or {}).get("parent")
                    names.append((n.id, v.sn if v is not None else 0))
                elif isinstance(n, ast.Call) and not (isinstance(n.func, ast.Name) and n.func.id in ("len", "isinstance", "hasattr", "callable")):
                    return None
            return (ast.dump(test), tuple(names))
        except Exception:
            return None

    def facts_of(self, test, pos):
        out = set()
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.facts_of(test.operand, not pos)
        if isinstance(test, ast.BoolOp):
            if isinstance(test.op, ast.And) == pos:
                for x in test.values:
                    out |= self.facts_of(x, pos)
        if isinstance(test, ast.Compare) and len(test.ops) == 1:
            op = test.ops[0]
            inv = {ast.IsNot: ast.Is, ast.NotEq: ast.Eq, ast.NotIn: ast.In, ast.GtE: ast.Lt, ast.LtE: ast.Gt}
            if type(op) in inv:
                t2 = ast.Compare(test.left, [inv[type(op)]()], test.comparators)
                ast.copy_location(t2, test)
                k = self.factkey(t2)
                if k:
                    out.add((k, not pos))
                return out
        k = self.factkey(test)
        if k:
            out.add((k, pos))
        return out

    def branch(self, test, tv, f_then, f_else, loopctl=False):
        ctx = self.ctxs[-1]
        n0 = self.escapes(ctx)
        s2 = self.st.copy()
        ft, ff = self.facts_of(test, True), self.facts_of(test, False)
        neg = {(k, not p) for k, p in self.st.facts}
        ctx.pc.append(tv.deps | tv.cdeps)
        dom_c = self.dom.push_pc(tv)
        s1 = None
        if not (ft & neg):
            try:
                self.refine(test, True)
                self.st.facts = self.st.facts | ft
                f_then()
            except Dead:
                self.st = None
            s1 = self.st
        self.st = s2
        if not (ff & neg):
            try:
                self.refine(test, False)
                self.st.facts = self.st.facts | ff
                f_else()
            except Dead:
                self.st = None
            s2 = self.st
        else:
            s2 = None
        ctx.pc.pop()
        self.dom.pop_pc(dom_c)
        if self.escapes(ctx) != n0:
            ctx.pc_extra = ctx.pc_extra | tv.deps | tv.cdeps
            self.dom.escape_pc(tv, ctx)
        self.st = self.join_states(s1, s2, tv)
        if self.st is None:
            raise Dead()

    def escapes(self, ctx):
        return len(ctx.rets) + sum(len(l[0]) + len(l[1]) for l in ctx.loops)

    def s_While(self, s):
        self.loop(s, None)

    def unrollable(self, items):
        return items is not None and (len(items) <= 12 or (len(items) <= 40 and all(x.only(C) or x.only(Tup) for x in items)))

    def s_For(self, s):
        it = self.eval(s.iter)
        tok = self.dom.loop_begin(s, it)
        self.for_loop(s, it)
        if self.st is not None:
            self.dom.loop_end(s, it, tok)

    def for_loop(self, s, it):
        ats = [a for a in it.atoms if not (isinstance(a, (U,)) or (isinstance(a, C) and a.v is None))]
        if 1 <= len(ats) <= 4:
            many = [self.known_items(it.w(atoms=frozenset([a]))) for a in ats]
            if all(self.unrollable(x) for x in many):
                keep, out = self.st, None
                ats = None
                for k, items in enumerate(many):
                    self.st = keep.copy() if k < len(many) - 1 else keep
                    try:
                        self.unrolled(s, items)
                    except Dead:
                        self.st = None
                    if self.st is not None:
                        out = self.st if out is None else self.join_states(out, self.st, it)
                self.st = out
                if out is None:
                    raise Dead()
                return
        self.loop(s, it)

    def unrolled(self, s, items):
        ctx = self.ctxs[-1]
        ctx.loops.append(([], []))
        dead = False
        try:
            for x in items:
                try:
                    self.assign(s.target, x, s)
                    self.exec_block(s.body)
                except Dead:
                    self.st = None
                brk, cont = ctx.loops[-1]
                for st in cont:
                    self.st = self.join_states(self.st, st)
                cont.clear()
                if self.st is None:
                    break
        finally:
            brk, cont = ctx.loops.pop()
        if self.st is not None and s.orelse:
            try:
                self.exec_block(s.orelse)
            except Dead:
                self.st = None
        for st in brk:
            self.st = self.join_states(self.st, st)

    s_AsyncFor = s_For

    def loop(self, s, it):
        ctx = self.ctxs[-1]
        exits = None
        head = self.st
        isfor = it is not None
        ctl = it if isfor else None
        always_one = isfor  # loops over data are taken at least once (DESIGN.md)
        final = None
        for k in range(LOOP_ITERS):
            self.st = head.copy()
            ctx.loops.append(([], []))
            entered = True
            if isfor:
                ctx.pc.append(it.deps | it.cdeps)
                e = self.dom.loop_elem(it, self.elem(it), s)
                pcs = self.dom.push_pc(it)
                try:
                    self.assign(s.target, e, s)
                    self.exec_block(s.body)
                finally:
                    ctx.pc.pop()
                    self.dom.pop_pc(pcs)
            else:
                tv = self.eval(s.test)
                ctl = tv
                t = self.truth(tv)
                if k == 0:
                    always_one = t is True
                ex = None
                if t is not True:
                    sx = self.st.copy()
                    keep = self.st
                    self.st = sx
                    try:
                        self.refine(s.test, False)
                        ex = self.st
                    except Dead:
                        ex = None
                    self.st = keep
                if t is False:
                    ctx.loops.pop()
                    final = self.join_states(final, ex)
                    break
                ctx.pc.append(tv.deps | tv.cdeps)
                pcs = self.dom.push_pc(tv)
                try:
                    self.refine(s.test, True)
                    self.exec_block(s.body)
                except Dead:
                    self.st = None
                finally:
                    ctx.pc.pop()
                    self.dom.pop_pc(pcs)
                final = ex
            brk, cont = ctx.loops.pop()
            back = self.st
            for st in cont:
                back = self.join_states(back, st)
            for st in brk:
                exits = self.join_states(exits, st, ctl)
            if back is None:
                if isfor:
                    final = None if always_one and k == 0 else head
                    if k == 0:
                        final = head if not exits and not ctx.rets else (head if isfor else final)
                break
            if k == 0 and always_one:
                # first iteration is executed: later heads start from its result
                new = self.join_loop_first(head, back, ctl)
            else:
                new = self.join_states(head, back, ctl)
            if k > 0 and self.states_equal(new, head):
                head = new
                break
            if k == LOOP_ITERS - 2:
                new = self.widen(head, new)
            head = new
        if isfor:
            if final is None:
                final = head
        self.st = final
        if s.orelse and self.st is not None:
            self.exec_block(s.orelse)
        self.st = self.join_states(self.st, exits, ctl)

    def join_loop_first(self, head, back, ctl):
        """like join_states, but names bound in the first iteration count as bound"""
        j = self.join_states(head, back, ctl)
        fid = self.frame()
        o, b, h = j.heap.get(fid), back.heap.get(fid), head.heap.get(fid)
        if o is not None and b is not None and h is not None:
            o = j.mut(fid)
            for k, v in b.attrs.items():
                hv = h.attrs.get(k)
                if hv is None:
                    o.attrs[k] = v.w(cdeps=v.cdeps | ctl.deps | ctl.cdeps) if ctl is not None else v
                elif any(isinstance(a, U) for a in hv.atoms) and not any(isinstance(a, U) for a in v.atoms):
                    o.attrs[k] = o.attrs[k].w(atoms=frozenset(a for a in o.attrs[k].atoms if not isinstance(a, U)))
        return j

    def widen(self, old, new):
        for k, o in list(new.heap.items()):
            p = old.heap.get(k)
            if p is None or p is o:
                continue
            for a, v in list(o.attrs.items()):
                pv = p.attrs.get(a)
                if pv is not None and pv.tag != v.tag:
                    v = v.w(tag=self.dom.widen_tag(pv, v), sn=v.sn)
                    new.mut(k).attrs[a] = v
                if pv is not None and pv.atoms != v.atoms:
                    atoms = set()
                    for x in v.atoms:
                        if isinstance(x, C) and isinstance(x.v, (int, float)) and not isinstance(x.v, bool):
                            atoms.add(T("int" if isinstance(x.v, int) else "num"))
                        else:
                            atoms.add(x)
                    new.mut(k).attrs[a] = v.w(atoms=cap_atoms(atoms))
            if o.elem is not None and p.elem is not None and o.elem.tag != p.elem.tag:
                m = new.mut(k)
                m.elem = m.elem.w(tag=self.dom.widen_tag(p.elem, o.elem), sn=m.elem.sn)
        return new

    def s_Break(self, s):
        ctx = self.ctxs[-1]
        if ctx.loops:
            ctx.loops[-1][0].append(self.st)
        self.st = None

    def s_Continue(self, s):
        ctx = self.ctxs[-1]
        if ctx.loops:
            ctx.loops[-1][1].append(self.st)
        self.st = None

    def s_With(self, s):
        for it in s.items:
            v = self.eval(it.context_expr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v.w(), s)
        self.exec_block(s.body)

    s_AsyncWith = s_With

    def s_Try(self, s):
        pre = self.st.copy()
        pre_facts = self.st.facts
        self.sinks.append([])
        self.trystack.append([self.exc_names(h.type) for h in s.handlers])
        try:
            self.exec_block(s.body)
        finally:
            sink = self.sinks.pop()
            self.trystack.pop()
        body_st = self.st
        outs = []
        if body_st is not None:
            mid = body_st.copy()
            if s.orelse:
                self.exec_block(s.orelse)
            if self.st is not None:
                outs.append(self.st)
        else:
            mid = None
        if s.handlers and mid is not None and not sink and self.cannot_raise(s.body):
            outs = [self.st] if self.st is not None else []
        elif s.handlers:
            # implicit exceptions may occur anywhere in the body
            base = pre
            caught_all = False
            left = list(sink)
            for h in s.handlers:
                names = self.exc_names(h.type)
                if names is None:
                    match, left = left, []
                else:
                    match = [x for x in left if self.exc_match(x[1], names)]
                    left = [x for x in left if x not in match]
                hs = base.copy()
                for x in match:
                    hs = self.join_states(hs, x[0].copy())
                if mid is not None:
                    hs = self.join_states(hs, mid.copy())
                self.st = hs.copy()
                self.st.facts = pre_facts
                if h.name:
                    self.setname(h.name, top("any"))
                if self.dom.on_handler(h, names, s) is False:
                    continue
                self.exec_block(h.body)
                self.dom.on_handler_end(h, names, s)
                if self.st is not None:
                    outs.append(self.st)
            self.sinks[-1].extend(left)
        else:
            self.sinks[-1].extend(sink)
        self.st = None
        for o in outs:
            self.st = self.join_states(self.st, o)
        if s.finalbody:
            if self.st is None:
                self.st = pre.copy()
                self.exec_block(s.finalbody)
                self.st = None
            else:
                self.exec_block(s.finalbody)

    s_TryStar = s_Try

    def cannot_raise(self, body):
        """assignments of conversions of known numbers"""
        if self.dom.numeric_inputs and all(isinstance(x, ast.Assign) and isinstance(x.value, ast.Call) and (isinstance(x.value.func, ast.Name) and x.value.func.id == "float"
                and len(x.value.args) == 1 or isinstance(x.value.func, ast.Attribute) and x.value.func.attr in ("asarray", "array", "float64") and len(x.value.args) == 1
                and any(k.arg == "dtype" for k in x.value.keywords)) for x in body):
            vs = [self.eval_quiet(x.value.args[0]) for x in body]
            if not any(isinstance(a, (Ref, Tup)) or isinstance(a, C) and isinstance(a.v, (str, bytes)) or isinstance(a, T) and a.t == "str" for v in vs for a in v.atoms):
                return True
        for x in body:
            if not (isinstance(x, ast.Assign) and isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Name) and x.value.func.id in ("float", "int")
                    and len(x.value.args) == 1 and all(isinstance(n, (ast.Name, ast.Attribute, ast.Constant, ast.Load)) for n in ast.walk(x.value.args[0]))):
                return False
            v = self.eval_quiet(x.value.args[0])
            cs = v.consts()
            if not cs or any(not isinstance(c, (int, float)) for c in cs):
                return False
        return True

    def handled(self, exc):
        """an enclosing try (in this function or a caller) handles this exception"""
        return any(names is None or self.exc_match(exc, names) for hs in self.trystack for names in hs)

    def exc_names(self, t):
        if t is None:
            return None
        v = self.eval_quiet(t)
        names = set()
        for x in self.contents(v):
            for a in x.atoms:
                if isinstance(a, Ext):
                    names.add(a.name.split(".")[-1])
                elif isinstance(a, ClassA):
                    names.add(a.cls.name)
        if "Exception" in names or "BaseException" in names:
            return None
        return names

    def exc_match(self, name, names):
        if name in names:
            return True
        c = getattr(builtins, name, None)
        for n in names:
            d = getattr(builtins, n, None)
            if isinstance(c, type) and isinstance(d, type) and issubclass(c, d):
                return True
        return False

    def s_Match(self, s):
        subj = self.eval(s.subject)
        outs = []
        start = self.st
        for case in s.cases:
            self.st = start.copy()
            for n in ast.walk(case.pattern):
                for nm in ("name", "rest"):
                    x = getattr(n, nm, None)
                    if isinstance(x, str):
                        self.setname(x, top("any", subj))
            self.exec_block(case.body)
            if self.st is not None:
                outs.append(self.st)
        self.st = start
        for o in outs:
            self.st = self.join_states(self.st, o, subj)

    # ------------------------------------------------------------------ refinement
    def refine(self, test, pos):
        """restrict lvalues mentioned in test; raises Dead if impossible"""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.refine(test.operand, not pos)
        if isinstance(test, ast.BoolOp):
            if isinstance(test.op, ast.And) == pos:
                for x in test.values:
                    self.refine(x, pos)
            else:
                # all but one operand already decided the other way
                und = []
                for x in test.values:
                    t = self.truth(self.eval_quiet(x))
                    if t is None:
                        und.append(x)
                    elif t == pos:
                        return
                if len(und) == 1:
                    self.refine(und[0], pos)
            return
        if isinstance(test, ast.NamedExpr):
            return self.refine(test.target, pos)
        if isinstance(test, ast.Compare) and len(test.ops) > 1 and pos:
            for l, op, r in zip([test.left] + test.comparators, test.ops, test.comparators):
                self.refine(ast.copy_location(ast.Compare(l, [op], [r]), test), True)
            return
        if isinstance(test, ast.Compare) and len(test.ops) == 1:
            op = test.ops[0]
            l, r = test.left, test.comparators[0]
            if isinstance(op, (ast.IsNot, ast.NotEq, ast.NotIn)):
                pos = not pos
                op = {ast.IsNot: ast.Is, ast.NotEq: ast.Eq, ast.NotIn: ast.In}[type(op)]()
            if isinstance(op, (ast.Is, ast.Eq)):
                rv = self.eval_quiet(r)
                ok, c = rv.const()
                if ok:
                    self.filter_lvalue(l, lambda a: self.atom_eq(a, c, isinstance(op, ast.Is)), pos, [c])
                else:
                    lv = self.eval_quiet(l)
                    ok, c = lv.const()
                    if ok:
                        self.filter_lvalue(r, lambda a: self.atom_eq(a, c, isinstance(op, ast.Is)), pos, [c])
            elif isinstance(op, ast.In):
                items = self.known_items(self.eval_quiet(r))
                self.refine_key(l, r, pos)
                if items is not None:
                    cs = [x.const() for x in items]
                    if all(o for o, _ in cs):
                        cs = [c for _, c in cs]

                        def test_in(a):
                            rs = [self.atom_eq(a, c, False) for c in cs]
                            return True if True in rs else (None if None in rs else False)
                        self.filter_lvalue(l, test_in, pos, cs)
            self.dom.refine_compare(test, pos)
            return
        if isinstance(test, ast.Call) and isinstance(test.func, ast.Name):
            if test.func.id == "isinstance" and len(test.args) == 2:
                tv = self.eval_quiet(test.args[1])
                self.filter_lvalue(test.args[0], lambda a: self.ext.isinstance_atom(self, a, tv), pos, None,
                                   typ=self.ext.type_names(self, tv))
                return
            if test.func.id == "hasattr" and len(test.args) == 2 and pos:
                self.refine_hasattr(test.args)
                return
            if test.func.id == "callable" and test.args:
                self.filter_lvalue(test.args[0], lambda a: self.ext.callable_atom(self, a), pos, None)
                return
        if isinstance(test, (ast.Name, ast.Attribute)):
            self.filter_lvalue(test, self.truth1, pos, None)

    def atom_eq(self, a, c, ident):
        if isinstance(a, C):
            if ident:
                return a.v is c or (type(a.v) is type(c) and a.v == c)
            try:
                return bool(a.v == c)
            except Exception:
                return None
        if c is None:
            if isinstance(a, T) and a.t in ("any",):
                return False
            return False
        if isinstance(a, T):
            if isinstance(c, str) and a.t in ("num", "int", "bool", "callable"):
                return False
            if isinstance(c, bool) and a.t in ("str", "callable", "arr"):
                return False if ident else None
            return None
        if isinstance(a, (Ref, Func, Bound, ClassA, Tup)):
            if isinstance(c, (str, int, float, bool)):
                return False
        return None

    def filter_lvalue(self, node, pred, pos, consts, typ=None):
        v = self.lvalue_get(node)
        if v is None:
            return
        keep = set()
        for a in v.atoms:
            if isinstance(a, U):
                continue
            r = pred(a)
            if pos:
                if r is True:
                    keep.add(a)
                elif r is None:
                    if consts is not None and isinstance(a, T) and a.t in ("str", "any", "int", "num", "bool"):
                        if a.t == "str" or all(isinstance(c, (str, bool, int, float)) or c is None for c in consts):
                            cc = [c for c in consts if c is not None and not (a.t == "str" and not isinstance(c, str))]
                            keep.update(C(c) for c in cc)
                            if not cc:
                                keep.add(a)
                        else:
                            keep.add(a)
                    elif typ and isinstance(a, T) and a.t == "any":
                        t = self.ext.narrow_type(typ)
                        keep.add(T(t) if t else a)
                    else:
                        keep.add(a)
            else:
                if r is not True:
                    keep.add(a)
        if not keep:
            raise Dead()
        if keep != v.atoms:
            nv = v.w(atoms=frozenset(keep), sn=v.sn)
            self.lvalue_set(node, nv)
            self.refine_copies(node, v, nv)

    def refine_copies(self, node, v, nv):
        """self.x = x; a later test of the unchanged parameter x also restricts self.x"""
        if not isinstance(node, ast.Name) or v.sn in (ANY.sn, NONE.sn) or not self.ctxs:
            return
        fo = self.st.get(self.frame())
        s = fo.attrs.get("self") if fo is not None else None
        if s is None or len(s.atoms) != 1 or self.ctxs[-1].func is None:
            return
        fn = getattr(self.ctxs[-1].func, "node", None)
        if not isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)) or node.id not in {a.arg for a in fn.args.args + fn.args.kwonlyargs}:
            return
        for i in s.refs():
            o = self.st.get(i)
            if o is not None and o.kind == "obj":
                for k, x in list(o.attrs.items()):
                    if x.sn == v.sn and x.atoms == v.atoms:
                        self.st.mut(i).attrs[k] = nv

    def refine_hasattr(self, args):
        ok, k = self.eval_quiet(args[1]).const()
        base = self.eval_quiet(args[0])
        if ok and isinstance(k, str) and len(base.atoms) == 1:
            for i in base.refs():
                self.drop_unbound(i, k, "obj")

    def drop_unbound(self, i, k, kind):
        o = self.st.get(i)
        v = o.attrs.get(k) if o is not None and o.kind == kind else None
        if v is not None and any(isinstance(a, U) for a in v.atoms):
            rest = frozenset(a for a in v.atoms if not isinstance(a, U))
            if not rest:
                raise Dead()
            self.st.mut(i).attrs[k] = v.w(atoms=rest, sn=v.sn)

    def refine_key(self, l, r, pos):
        """'k' in d: drop dictionaries that cannot satisfy it; in a single one the key is then bound"""
        ok, k = self.eval_quiet(l).const()
        if not ok or not isinstance(k, str):
            return
        base = self.eval_quiet(r)
        dicts = [(a, self.st.get(a.id)) for a in base.atoms if isinstance(a, Ref)]
        if not dicts or any(o is None or o.kind != "dict" for _, o in dicts):
            return
        lv = self.lvalue_get(r)
        keep = set(base.atoms)
        for a, o in dicts:
            v = o.attrs.get(k)
            if pos and v is None and not o.open and o.elem is None:
                keep.discard(a)
            if not pos and v is not None and not any(isinstance(x, U) for x in v.atoms):
                keep.discard(a)
        if not keep:
            raise Dead()
        if keep != base.atoms and lv is not None and lv.atoms == base.atoms:
            self.lvalue_set(r, lv.w(atoms=frozenset(keep), sn=lv.sn))
        if pos and len(keep) == 1:
            for a in keep:
                if isinstance(a, Ref):
                    self.drop_unbound(a.id, k, "dict")

    def lvalue_get(self, node):
        if isinstance(node, ast.Name):
            fid = self.frame()
            while fid is not None:
                fo = self.st.get(fid)
                if fo is None:
                    return None
                if node.id in fo.attrs:
                    return fo.attrs[node.id]
                fid = (fo.info or {}).get("parent")
            return None
        if isinstance(node, ast.Attribute):
            base = self.eval_quiet(node.value)
            if len(base.atoms) == 1:
                a = next(iter(base.atoms))
                if isinstance(a, Ref):
                    o = self.st.get(a.id)
                    if o is not None and o.kind == "obj":
                        return o.attrs.get(node.attr)
        if isinstance(node, ast.NamedExpr):
            return self.lvalue_get(node.target)
        if isinstance(node, ast.Subscript):
            base = self.eval_quiet(node.value)
            ok, k = self.eval_quiet(node.slice).const()
            if ok and isinstance(k, str) and len(base.atoms) == 1:
                a = next(iter(base.atoms))
                if isinstance(a, Ref):
                    o = self.st.get(a.id)
                    if o is not None and o.kind == "dict":
                        return o.attrs.get(k)
        return None

    def lvalue_set(self, node, v):
        if isinstance(node, ast.Name):
            fid = self.frame()
            while fid is not None:
                fo = self.st.get(fid)
                if fo is None:
                    return
                if node.id in fo.attrs:
                    self.st.mut(fid).attrs[node.id] = v
                    return
                fid = (fo.info or {}).get("parent")
        elif isinstance(node, ast.Attribute):
            a = next(iter(self.eval_quiet(node.value).atoms))
            self.st.mut(a.id).attrs[node.attr] = v
        elif isinstance(node, ast.NamedExpr):
            self.lvalue_set(node.target, v)
        elif isinstance(node, ast.Subscript):
            a = next(iter(self.eval_quiet(node.value).atoms))
            ok, k = self.eval_quiet(node.slice).const()
            self.st.mut(a.id).attrs[k] = v

    # ------------------------------------------------------------------ expressions
    def eval(self, e):
        self.steps += 1
        if self.st is None:
            raise Dead()
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return ANY
        return m(e)

    def e_Constant(self, e):
        return V([C(e.value)]) if not isinstance(e.value, bytes) and e.value is not Ellipsis else V([C("...")]) if e.value is Ellipsis else ANY

    def e_Name(self, e):
        return self.lookup(e.id, e)

    def e_Tuple(self, e):
        items = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                sv = self.eval(x.value)
                k = self.known_items(sv)
                if k is None:
                    rest = [self.eval(y) if not isinstance(y, ast.Starred) else self.elem(self.eval(y.value)) for y in e.elts]
                    f = self.joinall([self.elem(sv)] + rest)
                    i = self.alloc("list", "list")
                    self.st.mut(i).elem = f
                    return V([Ref(i)], f.deps, f.cdeps)
                items.extend(k)
            else:
                items.append(self.eval(x))
        return V([Tup(items)])

    def e_List(self, e):
        v = self.e_Tuple(e)
        a = next(iter(v.atoms))
        if isinstance(a, Tup):
            return self.mklist(list(a.items))
        return v

    def e_Set(self, e):
        v = self.e_Tuple(e)
        a = next(iter(v.atoms))
        if isinstance(a, Tup):
            return self.mklist(list(a.items), "set")
        return v

    def e_Dict(self, e):
        i = self.alloc("dict", "dict")
        for k, x in zip(e.keys, e.values):
            xv = self.eval(x)
            if k is None:
                self.dict_merge(i, xv)
            else:
                self.dict_set(i, self.eval(k), xv)
        return V([Ref(i)])

    def dict_merge(self, i, v):
        for a in v.atoms:
            o2 = self.st.get(a.id) if isinstance(a, Ref) else None
            if o2 is not None and o2.kind == "dict":
                o = self.st.mut(i)
                for k, x in o2.attrs.items():
                    if any(isinstance(q, U) for q in x.atoms) and k in o.attrs:
                        x = self.join(o.attrs[k], x.w(atoms=frozenset(q for q in x.atoms if not isinstance(q, U))))
                    elif o2.open and k in o.attrs and len(v.atoms) > 1:
                        x = self.join(o.attrs[k], x)
                    o.attrs[k] = x
                if o2.open or o2.elem is not None:
                    e = o2.elem if o2.elem is not None else top("any", v)
                    o.open = True
                    o.elem = self.join(o.elem, e)
                    for k in list(o.attrs):
                        if k not in o2.attrs:
                            o.attrs[k] = self.join(o.attrs[k], e)
            elif isinstance(a, T):
                o = self.st.mut(i)
                e = top("any", v, tag=v.tag)
                o.open = True
                o.elem = self.join(o.elem, e)
                for k in list(o.attrs):
                    o.attrs[k] = self.join(o.attrs[k], e)

    def e_JoinedStr(self, e):
        vs = [self.eval(x) for x in e.values]
        if all(v.const()[0] for v in vs):
            return const("".join(str(v.const()[1]) for v in vs))
        d, c = self.flatdeps(*vs)
        return V([T("str")], d, c)

    def e_FormattedValue(self, e):
        v = self.eval(e.value)
        if e.format_spec is not None:
            self.eval(e.format_spec)
            r = self.dom.lossy("format", [v], e)
            return r if r is not None else V([T("str")], self.flat(v).deps, v.cdeps)
        ok, k = v.const()
        if ok and isinstance(k, (str, int)):
            return const(str(k)).w(deps=v.deps, cdeps=v.cdeps)
        return V([T("str")], self.flat(v).deps, v.cdeps)

    def e_Lambda(self, e):
        return self.mkfunc(e)

    def e_IfExp(self, e):
        tv = self.eval(e.test)
        t = self.truth(tv)
        self.dom.on_branch(e, tv, t)
        if t is True:
            self.refine(e.test, True)
            return self.eval(e.body)
        if t is False:
            self.refine(e.test, False)
            return self.eval(e.orelse)
        return self.branch_expr(e.test, tv, lambda: self.eval(e.body), lambda: self.eval(e.orelse))

    def branch_expr(self, test, tv, f1, f2):
        res = []

        def run(f):
            def g():
                res.append(f())
            return g
        r1, r2 = [], []

        def g1():
            r1.append(f1())

        def g2():
            r2.append(f2())
        self.branch(test, tv, g1, g2)
        if r1 and r2:
            return self.join(r1[0], r2[0], tv)
        v = (r1 or r2)
        if not v:
            raise Dead()
        return self.control(v[0], tv.deps | tv.cdeps)

    def e_BoolOp(self, e):
        is_and = isinstance(e.op, ast.And)

        def go(i):
            v = self.eval(e.values[i])
            if i == len(e.values) - 1:
                return v
            t = self.truth(v)
            if t is (not is_and):
                return v
            if t is is_and:
                return self.control(go(i + 1), v.cdeps | v.deps)
            # undetermined: later operands evaluated only on one side
            keep = self.st.copy()
            out = None
            s_eval = None
            try:
                self.refine(e.values[i], is_and)
                out = go(i + 1)
                s_eval = self.st
            except Dead:
                s_eval = None
            self.st = self.join_states(s_eval, keep, v) if s_eval is not None else keep
            # value on the short-circuit side
            sc = frozenset((C(not is_and) if isinstance(a, T) and a.t == "bool" else a) for a in v.atoms if self.truth1(a) is not is_and)
            vs = v.w(atoms=sc) if sc else None
            if out is None:
                return vs if vs is not None else v
            if vs is None:
                return out
            return self.join(vs, out, v)
        return go(0)

    def e_UnaryOp(self, e):
        v = self.eval(e.operand)
        if isinstance(e.op, ast.Not):
            t = self.truth(v)
            return V([C(not t)] if t is not None else [T("bool")], v.deps, v.cdeps, EMPTY, self.dom.unary("not", v))
        ok, c = v.const()
        if ok and isinstance(c, (int, float, complex)):
            try:
                r = -c if isinstance(e.op, ast.USub) else +c if isinstance(e.op, ast.UAdd) else (not c) if isinstance(c, bool) else ~c
                return V([C(r)], v.deps, v.cdeps, EMPTY, self.dom.unary(type(e.op).__name__, v))
            except Exception:
                pass
        return V([T(self.numtype(v))], v.deps, v.cdeps, EMPTY, self.dom.unary(type(e.op).__name__, v))

    def numtype(self, *vs):
        ts = set()
        for v in vs:
            for a in v.atoms:
                if isinstance(a, C):
                    ts.add("int" if isinstance(a.v, (int, bool)) else "num" if isinstance(a.v, (float, complex)) else "str" if isinstance(a.v, str) else "any")
                elif isinstance(a, T):
                    ts.add(a.t)
                else:
                    ts.add("any")
        if "arr" in ts:
            return "arr"
        if ts <= {"int", "bool"}:
            return "int"
        if ts <= {"int", "num", "bool"}:
            return "num"
        if "str" in ts and ts <= {"str"}:
            return "str"
        return "any"

    def e_BinOp(self, e):
        l = self.eval(e.left)
        r = self.eval(e.right)
        return self.binop(e.op, l, r, e)

    def binop(self, op, l, r, e, aug=False):
        if self.dom.fold_numeric:
            x = folding.fold_bin(self, op, l, r)
            if x is not None:
                return x
        lc, rc = l.consts(), r.consts()
        if lc is not None and rc is not None and len(lc) * len(rc) <= 9:
            out = set()
            try:
                for a in lc:
                    for b in rc:
                        out.add(C(self.fold(op, a, b)))
                return V(cap_atoms(out), l.deps | r.deps, l.cdeps | r.cdeps, EMPTY, self.dom.bin(op, l, r, e))
            except Exception:
                pass
        # sequences
        if isinstance(op, ast.Add):
            li, ri = self.known_items(l), self.known_items(r)
            if li is not None and ri is not None and not l.consts() and not r.consts():
                la = next(iter(l.atoms))
                if isinstance(la, Tup):
                    return V([Tup(li + ri)], l.deps | r.deps, l.cdeps | r.cdeps)
                return self.mklist(li + ri).w(deps=l.deps | r.deps, cdeps=l.cdeps | r.cdeps)
            if self.is_list(l) and self.is_list(r):
                i = self.alloc("list", "list")
                self.st.mut(i).elem = self.join(self.elem(l), self.elem(r))
                return V([Ref(i)], l.deps | r.deps, l.cdeps | r.cdeps)
        if isinstance(op, ast.Mult) and (self.is_list(l) or self.is_list(r)):
            src = l if self.is_list(l) else r
            i = self.alloc("list", "list")
            self.st.mut(i).elem = self.elem(src)
            return V([Ref(i)], l.deps | r.deps, l.cdeps | r.cdeps)
        if isinstance(op, ast.BitOr) and l.only(Ref) and r.only(Ref):
            o = self.st.get(l.refs()[0])
            if o is not None and o.kind == "dict":
                i = self.alloc("dict", "dict")
                self.dict_merge(i, l)
                self.dict_merge(i, r)
                return V([Ref(i)], l.deps | r.deps, l.cdeps | r.cdeps)
        if isinstance(op, ast.Mod) and l.only(C) and isinstance(next(iter(l.atoms)).v, str):
            d, c = self.flatdeps(l, r)
            return V([T("str")], d, c)
        if isinstance(op, ast.FloorDiv):
            x = self.dom.lossy("floordiv", [l, r], e)
            if x is not None:
                return x
        lf, rf = self.flat(l), self.flat(r)
        # operator overloading on repository classes
        for x, y, nm in ((l, r, OPM.get(type(op))), (r, l, ROPM.get(type(op)))):
            if nm:
                for a in x.atoms:
                    if isinstance(a, Ref):
                        o = self.st.get(a.id)
                        if o is not None and o.kind == "obj" and o.cls is not None and o.cls.find(nm)[1] is not None:
                            f = next(iter(o.cls.find(nm)[1].atoms))
                            return self.call(V([Bound(V([a]), f)]), [y], {}, e)
        t = self.numtype(l, r)
        return V([T(t)], lf.deps | rf.deps, lf.cdeps | rf.cdeps, EMPTY, self.dom.bin(op, lf, rf, e))

    def is_list(self, v):
        if not v.atoms:
            return False
        for a in v.atoms:
            if isinstance(a, Ref):
                o = self.st.get(a.id)
                if o is None or o.kind != "list":
                    return False
            elif not isinstance(a, Tup):
                return False
        return True

    def fold(self, op, a, b):
        import operator as O
        if a is None or b is None:
            raise TypeError
        f = {ast.Add: O.add, ast.Sub: O.sub, ast.Mult: O.mul, ast.Div: O.truediv, ast.FloorDiv: O.floordiv,
             ast.Mod: O.mod, ast.Pow: O.pow, ast.BitOr: O.or_, ast.BitAnd: O.and_, ast.BitXor: O.xor}[type(op)]
        if isinstance(op, ast.Pow) and (abs(b) > 64 or abs(a) > 1e6):
            raise ValueError
        if isinstance(op, ast.Mult) and (isinstance(a, str) or isinstance(b, str)):
            if (isinstance(a, int) and a > 200) or (isinstance(b, int) and b > 200):
                raise ValueError
        return f(a, b)

    def e_Compare(self, e):
        vals = [self.eval(e.left)] + [self.eval(c) for c in e.comparators]
        d, c = self.flatdeps(*vals)
        res = set()
        if len(e.ops) == 1:
            res = self.cmp(e.ops[0], vals[0], vals[1])
        else:
            outs = [self.cmp(op, a, b) for op, a, b in zip(e.ops, vals, vals[1:])]
            if all(o == {True} for o in outs):
                res = {True}
            elif any(o == {False} for o in outs):
                res = {False}
            else:
                res = {None}
        # identity tests against None reveal only whether a value was supplied
        tag = None
        for op, a, b in zip(e.ops, vals, vals[1:]):
            t2 = self.dom.compare(op, self.flat(a), self.flat(b), e)
            tag = t2 if tag is None or tag == t2 else self.dom.join(tag, t2)
        atoms = frozenset(C(x) if x is not None else T("arr" if any(isinstance(q, T) and q.t == "arr" for v in vals for q in v.atoms) and not isinstance(e.ops[0], (ast.Is, ast.IsNot, ast.In, ast.NotIn)) else "bool") for x in res)
        return V(atoms, d, c, EMPTY, tag)

    def cmp(self, op, l, r):
        """set of possible truth values; None = unknown"""
        import operator as O
        if self.dom.fold_numeric:
            x = folding.fold_cmp(op, l, r)
            if x is not None:
                return {x}
        out = set()
        if isinstance(op, (ast.In, ast.NotIn)):
            neg = isinstance(op, ast.NotIn)
            items = self.known_items(r)
            keyset = None
            if items is None:
                if len(r.atoms) == 1:
                    a = next(iter(r.atoms))
                    if isinstance(a, C) and isinstance(a.v, str):
                        lc = l.consts()
                        if lc is not None and all(isinstance(x, str) for x in lc):
                            return {(x in a.v) != neg for x in lc}
                    if isinstance(a, Ref):
                        o = self.st.get(a.id)
                        if o is not None and o.kind == "dict":
                            lc = l.consts()
                            if lc is not None:
                                rs = set()
                                for x in lc:
                                    if x in o.attrs and not any(isinstance(q, U) for q in o.attrs[x].atoms):
                                        rs.add(True != neg)
                                    else:
                                        rs.add(None)
                                return rs
                return {None}
            if len(r.atoms) == 1 and isinstance(next(iter(r.atoms)), Ref):
                o = self.st.get(next(iter(r.atoms)).id)
                if o.kind == "dict":
                    lc = l.consts()
                    if lc is None:
                        return {None}
                    rs = set()
                    for x in lc:
                        if x in o.attrs:
                            rs.add(None if any(isinstance(q, U) for q in o.attrs[x].atoms) else True != neg)
                        else:
                            rs.add(False != neg)
                    return rs
            for a in l.atoms:
                rr = set()
                for it in items:
                    ok, c = it.const()
                    rr.add(self.atom_eq(a, c, False) if ok else None)
                x = True if True in rr else (None if None in rr else False)
                out.add(x if x is None else x != neg)
            return out
        if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
            neg = isinstance(op, (ast.IsNot, ast.NotEq))
            ident = isinstance(op, (ast.Is, ast.IsNot))
            for a in l.atoms:
                if isinstance(a, U):
                    continue
                for b in r.atoms:
                    if isinstance(b, U):
                        continue
                    if isinstance(b, C):
                        x = self.atom_eq(a, b.v, ident)
                    elif isinstance(a, C):
                        x = self.atom_eq(b, a.v, ident)
                    elif ident and a == b and isinstance(a, (Ref, Func, ClassA, Ext)):
                        x = True
                    elif isinstance(a, Ref) and isinstance(b, Ref) and ident:
                        x = False
                    elif isinstance(a, (ClassA, Ext)) and isinstance(b, (ClassA, Ext)):
                        x = a == b
                    else:
                        x = None
                    out.add(x if x is None else x != neg)
            return out or {None}
        f = {ast.Lt: O.lt, ast.LtE: O.le, ast.Gt: O.gt, ast.GtE: O.ge}.get(type(op))
        lc, rc = l.consts(), r.consts()
        if lc is not None and rc is not None:
            try:
                return {bool(f(a, b)) for a in lc for b in rc}
            except Exception:
                return {None}
        return {None}

    def e_Attribute(self, e):
        base = self.eval(e.value)
        return self.getattr(base, e.attr, e)

    def getattr(self, base, name, node, default=None):
        outs = []
        for a in base.atoms:
            x = self.getattr1(a, base, name, node, default)
            if x is not None:
                outs.append(x)
        if not outs:
            if default is not None:
                return default
            return top("any", base)
        v = self.joinall(outs)
        # control dependence of the base
        if base.cdeps - v.cdeps:
            v = v.w(cdeps=v.cdeps | base.cdeps, sn=v.sn)
        return v

    def getattr1(self, a, base, name, node, default=None):
        if isinstance(a, Ref):
            o = self.st.get(a.id)
            if o is None:
                return None
            if o.kind == "module":
                return o.attrs.get(name)
            if o.kind == "obj":
                if name in o.attrs:
                    v = o.attrs[name]
                    v = self.dom.on_getattr(a.id, o, name, v, node)
                    us = [x for x in v.atoms if isinstance(x, U)]
                    if us:
                        rest = v.atoms - frozenset(us)
                        if default is None and not self.contradicted(us[0].facts):
                            self.dom.on_missing_attr(o, name, node, not rest)
                        v = v.w(atoms=rest or frozenset([T("any")]), sn=v.sn)
                        if default is not None:
                            v = self.join(v, default)
                    return v
                if o.cls is not None:
                    if name == "__class__":
                        return V([ClassA(o.cls)])
                    if name == "__dict__":
                        i = self.alloc("dict", "dict")
                        self.st.mut(i).attrs = dict(o.attrs)
                        self.st.mut(i).mem = o.mem
                        return V([Ref(i)])
                    ci, m = o.cls.find(name)
                    if m is not None:
                        outs = []
                        for f in m.atoms:
                            if isinstance(f, Func):
                                if f.kind == "property":
                                    outs.append(self.call_func(f, [V([a])], {}, node))
                                elif f.kind == "staticmethod":
                                    outs.append(V([f]))
                                elif f.kind == "classmethod":
                                    outs.append(V([Bound(V([ClassA(o.cls)]), f)]))
                                else:
                                    outs.append(V([Bound(V([a]), f)]))
                            else:
                                outs.append(m.w(atoms=[f]))
                        return self.joinall(outs)
                    if o.cls.ext_bases():
                        r = self.dom.ext_base_attr(a.id, o, name, node)
                        if r is not None:
                            return r
                        return V([Bound(V([a]), Ext(o.cls.ext_bases()[0] + "." + name))])
                    if default is not None:
                        return default
                    if not o.open:
                        self.dom.on_missing_attr(o, name, node, True)
                    return None
                return top("any", base)
            # list / dict / set
            return V([ExtMeth(V([a], base.deps, base.cdeps, base.mem, base.tag), name)])
        if isinstance(a, Ext):
            return self.ext.ext_attr(self, a.name, name)
        if isinstance(a, ModA):
            v = self.modattr(a.name, name)
            if v is None:
                if a.name + "." + name in self.prog.trees:
                    self.load(a.name + "." + name)
                    return V([ModA(a.name + "." + name)])
                self.dom.on_undefined(f"{a.name}.{name}", node)
            return v
        if isinstance(a, ClassA):
            ci, m = a.cls.find(name)
            if m is not None:
                f = next(iter(m.atoms))
                if isinstance(f, Func) and f.kind == "classmethod":
                    return V([Bound(V([a]), f)])
                return m
            if name in ("__name__", "__qualname__", "__doc__"):
                return V([C(a.cls.name)])
            if a.cls.ext_bases():
                return V([Ext(a.cls.ext_bases()[0] + "." + name)])
            if default is not None:
                return default
            if a.cls.dataclass and any(f[0] == name for f in a.cls.all_fields()):
                return None
            if name.startswith("__"):
                return top("any")
            self.dom.on_missing_attr(None, a.cls.name + "." + name, node, True)
            return None
        if isinstance(a, Super):
            return self.super_attr(a, name, node)
        if isinstance(a, (Func, Bound)):
            if name in ("__name__", "__qualname__", "__doc__"):
                return V([T("str")])
            return None
        if isinstance(a, U):
            return None
        # unknown external value
        recv = V([a], base.deps, base.cdeps, base.mem, base.tag, base.sn)
        if isinstance(a, C) and a.v is None:
            if len(base.atoms) == 1 and default is None:
                self.dom.on_none_attr(name, node, base)
            return default
        return self.ext.value_attr(self, recv, name, node, default)

    def super_attr(self, a, name, node):
        rid = a.recv.refs()
        o = self.st.get(rid[0]) if rid else None
        cls = o.cls if o is not None and o.cls is not None else a.cls
        for x in a.recv.atoms:
            if isinstance(x, ClassA):
                cls = x.cls
        mro = cls.mro()
        try:
            i = mro.index(a.cls)
        except ValueError:
            i = -1
        for c in mro[i + 1:]:
            if isinstance(c, ClassInfo):
                if name in c.attrs:
                    m = c.attrs[name]
                    f = next(iter(m.atoms))
                    if isinstance(f, Func):
                        if f.kind == "property":
                            return self.call_func(f, [a.recv], {}, node)
                        return V([Bound(a.recv, f)])
                    return m
            else:
                return V([Bound(a.recv, Ext(c + "." + name))])
        return V([Bound(a.recv, Ext("builtins.object." + name))])

    def e_Subscript(self, e):
        base = self.eval(e.value)
        idx = self.eval(e.slice)
        return self.subscript(base, idx, e)

    def e_Slice(self, e):
        lo = self.eval(e.lower) if e.lower is not None else None
        hi = self.eval(e.upper) if e.upper is not None else None
        st = self.eval(e.step) if e.step is not None else None
        vs = [x for x in (lo, hi, st) if x is not None]
        d, c = self.flatdeps(*vs) if vs else (EMPTY, EMPTY)
        return V([Slice(lo, hi, st)], d, c)

    def subscript(self, base, idx, e):
        outs = []
        for a in base.atoms:
            if isinstance(a, U):
                continue
            outs.append(self.subscript1(a, base, idx, e))
        outs = [o for o in outs if o is not None]
        if not outs:
            return top("any", base, idx)
        v = self.joinall(outs)
        if any(isinstance(a, Tup) for a in idx.atoms):
            idx = self.flat(idx)
        d, c = base.deps | idx.deps, base.cdeps | idx.cdeps
        v = v.w(deps=v.deps | d, cdeps=v.cdeps | c) if (d - v.deps or c - v.cdeps) else v
        return self.dom.on_lookup(base, idx, v, e)

    def subscript1(self, a, base, idx, e):
        ok, k = idx.const()
        if isinstance(a, Tup) or (isinstance(a, Ref) and self.st.get(a.id) is not None and self.st.get(a.id).kind == "list"):
            if isinstance(a, Tup):
                items, el = list(a.items), None
            else:
                o = self.st.get(a.id)
                items, el = o.items, o.elem
            if ok and isinstance(k, int) and items is not None and el is None:
                if -len(items) <= k < len(items):
                    return items[k]
                return None
            sl = next(iter(idx.atoms)) if len(idx.atoms) == 1 else None
            if isinstance(sl, Slice) and items is not None and el is None:
                def cv(x):
                    if x is None:
                        return True, None
                    o_, c_ = x.const()
                    return (o_ and (c_ is None or isinstance(c_, int))), c_
                b = [cv(sl.lo), cv(sl.hi), cv(sl.step)]
                if all(x[0] for x in b):
                    sub = items[slice(b[0][1], b[1][1], b[2][1])]
                    return V([Tup(sub)]) if isinstance(a, Tup) else self.mklist(sub)
            allv = (items or []) + ([el] if el is not None else [])
            j = self.joinall(allv) if allv else ANY
            if isinstance(sl, Slice):
                i = self.alloc("list", "list")
                self.st.mut(i).elem = j
                return V([Ref(i)])
            return j
        if isinstance(a, Ref):
            o = self.st.get(a.id)
            if o is None:
                return None
            if o.kind == "dict":
                cs = idx.consts()
                outs = []
                if cs is not None:
                    for c in cs:
                        try:
                            hit = c in o.attrs
                        except TypeError:
                            hit = False
                        if hit:
                            x = o.attrs[c]
                            if any(isinstance(q, U) for q in x.atoms):
                                u = [q for q in x.atoms if isinstance(q, U)]
                                if not self.contradicted(u[0].facts) and not o.open:
                                    self.dom.on_missing_key(o, c, e, len(u) == len(x.atoms))
                                x = x.w(atoms=frozenset(q for q in x.atoms if not isinstance(q, U)) or [T("any")])
                            outs.append(x)
                        elif o.open or o.elem is not None:
                            outs.append(o.elem if o.elem is not None else top("any", base))
                        else:
                            self.dom.on_missing_key(o, c, e, True)
                    if not outs:
                        self.do_raise("KeyError", e)
                        raise Dead()
                    if not (o.open or o.elem is not None) and any(c not in o.attrs for c in cs):
                        self.do_raise("KeyError", e)
                    return self.joinall(outs)
                allv = list(o.attrs.values()) + ([o.elem] if o.elem is not None else [])
                if idx.only(C) is False and not o.open and o.elem is None:
                    self.do_raise("KeyError", e)
                return self.joinall([x.w(atoms=frozenset(q for q in x.atoms if not isinstance(q, U)) or [T("any")]) for x in allv]) if allv else top("any", base)
            if o.kind == "obj" and o.cls is not None:
                ci, m = o.cls.find("__getitem__")
                if m is not None:
                    return self.call(V([Bound(V([a]), next(iter(m.atoms)))]), [idx], {}, e)
            return top("any", base, tag=base.tag)
        if isinstance(a, (Ext, ClassA)):   # typing generics
            return V([a])
        if isinstance(a, C) and isinstance(a.v, str):
            return V([T("str")])
        if self.dom.fold_numeric and isinstance(a, C) and folding.numeric(a.v):
            return V([a], base.deps, base.cdeps, EMPTY, base.tag)
        if isinstance(a, ExtMeth) and a.name == "shape":
            return V([T("int")], base.deps, base.cdeps, EMPTY, self.dom.ext_value(a, base))
        # array-like
        sub = self.ext.index_kind(self, idx)
        fancy = sub == "fancy"
        t = "num" if (sub == "int" and isinstance(a, T) and a.t == "arr") else ("arr" if isinstance(a, T) and a.t == "arr" else "any")
        av = base.w(atoms=[a], sn=base.sn)
        return V([T(t)], base.deps | idx.deps, base.cdeps | idx.cdeps, EMPTY if fancy else base.mem,
                 self.dom.index(self.flat(av), idx, sub, e))

    def e_Starred(self, e):
        return self.eval(e.value)

    def e_NamedExpr(self, e):
        v = self.eval(e.value)
        self.assign(e.target, v, e)
        return v

    def e_Await(self, e):
        return self.eval(e.value)

    def e_Yield(self, e):
        v = self.eval(e.value) if e.value is not None else NONE
        ctx = self.ctxs[-1]
        ctx.yields = self.join(ctx.yields, v)
        return top("any")

    def e_YieldFrom(self, e):
        v = self.elem(self.eval(e.value))
        ctx = self.ctxs[-1]
        ctx.yields = self.join(ctx.yields, v)
        return top("any")

    # comprehensions
    def comp(self, gens, f):
        ctx = self.ctxs[-1]
        old = ctx.frame
        fid = self.newid("comp")
        walrus = set()
        self.st.new(fid, HObj("frame", info={"parent": old, "comp": True, "walrus": walrus}))
        ctx.frame = fid
        outs = []
        ctls = []
        npush = 0
        try:
            def rec(i):
                if i == len(gens):
                    outs.append(f())
                    return
                g = gens[i]
                if i == 0:
                    ctx.frame = old
                    it = self.eval(g.iter)
                    ctx.frame = fid
                else:
                    it = self.eval(g.iter)
                items = self.known_items(it)
                ctls.append(it)
                if items is not None and len(items) <= 12:
                    srcs = items
                    exact = True
                else:
                    srcs = [self.dom.loop_elem(it, self.elem(it), g)]
                    exact = False
                    self.exact = False
                for x in srcs:
                    self.assign(g.target, x, g.iter)
                    ok = True
                    saved = None
                    undet = []
                    for cond in g.ifs:
                        tv = self.eval(cond)
                        t = self.truth(tv)
                        if t is False:
                            ok = False
                            break
                        if t is None:
                            self.exact = False
                            ctls.append(tv)
                            if saved is None:
                                saved = self.st.copy()
                            try:
                                self.refine(cond, True)
                            except Dead:
                                ok = False
                                break
                    if ok:
                        rec(i + 1)
                    if saved is not None:
                        self.st = self.join_states(self.st, saved)
            prev = getattr(self, "exact", True)
            self.exact = True
            rec(0)
            exact = self.exact
            self.exact = prev
        finally:
            ctx.frame = old
        if self.st is not None and fid not in self.captured:
            self.st.heap.pop(fid, None)
        return outs, exact, ctls

    def e_ListComp(self, e):
        outs, exact, ctls = self.comp(e.generators, lambda: self.eval(e.elt))
        i = self.alloc("list", "list")
        o = self.st.mut(i)
        d, c = EMPTY, EMPTY
        for x in ctls:
            d |= x.deps
            c |= x.cdeps
        if exact:
            o.items = outs
        else:
            if outs:
                o.elem = self.joinall(outs)
            else:
                o.elem = None
                o.items = []
        v = V([Ref(i)], EMPTY, c | d)
        return self.dom.comp_result(v, ctls, outs, e)

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e):
        v = self.e_ListComp(e)
        self.st.mut(v.refs()[0]).kind = "set"
        return v

    def e_DictComp(self, e):
        outs, exact, ctls = self.comp(e.generators, lambda: (self.eval(e.key), self.eval(e.value)))
        i = self.alloc("dict", "dict")
        c = EMPTY
        for x in ctls:
            c |= x.deps | x.cdeps
        for k, v in outs:
            self.dict_set(i, k, v)
        if not exact:
            self.st.mut(i).open = True
        return V([Ref(i)], EMPTY, c)

    # ------------------------------------------------------------------ calls
    def e_Call(self, e):
        fn = e.func
        # super()
        if isinstance(fn, ast.Name) and fn.id == "super":
            return self.eval_super(e)
        fv = self.eval(fn)
        args, kw = [], {}
        star_unknown = None
        for a in e.args:
            if isinstance(a, ast.Starred):
                sv = self.eval(a.value)
                k = self.known_items(sv)
                if k is not None:
                    args.extend([x.w(deps=x.deps | sv.deps, cdeps=x.cdeps | sv.cdeps) if (sv.deps - x.deps or sv.cdeps - x.cdeps) else x for x in k])
                else:
                    star_unknown = sv
            else:
                x = self.eval(a)
                if star_unknown is not None:
                    continue
                args.append(x)
        dstar = None
        for k in e.keywords:
            x = self.eval(k.value)
            if k.arg is None:
                for a in x.atoms:
                    o = self.st.get(a.id) if isinstance(a, Ref) else None
                    if o is not None and o.kind == "dict":
                        for kk, vv in o.attrs.items():
                            if isinstance(kk, str):
                                vv2 = vv.w(atoms=frozenset(q for q in vv.atoms if not isinstance(q, U)) or [T("any")]) if any(isinstance(q, U) for q in vv.atoms) else vv
                                kw[kk] = vv2
                                if any(isinstance(q, U) for q in vv.atoms):
                                    kw.setdefault("?maybe", set()).add(kk)
                        if o.open or o.elem is not None:
                            dstar = self.join(dstar, o.elem if o.elem is not None else top("any", x))
                    elif not (isinstance(a, C) and a.v is None):
                        dstar = self.join(dstar, top("any", x, tag=x.tag))
            else:
                kw[k.arg] = x
        maybe = kw.pop("?maybe", set())
        return self.call(fv, args, kw, e, star_unknown, dstar, maybe)

    def eval_super(self, e):
        ctx = None
        for c in reversed(self.ctxs):
            if c.func is not None and c.func.cls is not None:
                ctx = c
                break
        if ctx is None:
            return ANY
        a = ctx.func.node.args
        first = (a.posonlyargs + a.args)[0].arg
        fo = self.st.get(ctx.frame)
        v = fo.attrs.get(first)
        if v is None:
            return ANY
        return V([Super(v, ctx.func.cls)])

    def call(self, fv, args, kw, node, star=None, dstar=None, maybe=()):
        outs = []
        atoms = [a for a in fv.atoms if not isinstance(a, U)]
        if len(atoms) > 1:
            start = self.st
            acc = None
            for a in atoms:
                self.st = start.copy()
                try:
                    outs.append(self.call1(a, fv, args, kw, node, star, dstar, maybe))
                    acc = self.join_states(acc, self.st)
                except Dead:
                    pass
            self.st = acc
            if acc is None:
                raise Dead()
        else:
            for a in atoms:
                outs.append(self.call1(a, fv, args, kw, node, star, dstar, maybe))
        if not outs:
            return top("any", fv)
        v = self.joinall(outs)
        if fv.cdeps - v.cdeps:
            v = v.w(cdeps=v.cdeps | fv.cdeps)
        return v

    def call1(self, a, fv, args, kw, node, star, dstar, maybe):
        if isinstance(a, Func):
            return self.call_func(a, args, kw, node, star, dstar, maybe)
        if isinstance(a, Bound):
            if isinstance(a.func, Func):
                return self.call_func(a.func, [a.recv] + args, kw, node, star, dstar, maybe)
            return self.ext.bound_ext_call(self, a, args, kw, node, star, dstar)
        if isinstance(a, ClassA):
            return self.instantiate(a.cls, args, kw, node, star, dstar, maybe)
        if isinstance(a, Ext):
            return self.ext.ext_call(self, a.name, args, kw, node, star, dstar)
        if isinstance(a, ExtMeth):
            return self.ext.method_call(self, a, args, kw, node, star, dstar)
        if isinstance(a, Ref):
            o = self.st.get(a.id)
            if o is not None and o.kind == "obj" and o.cls is not None:
                ci, m = o.cls.find("__call__")
                if m is not None:
                    return self.call_func(next(iter(m.atoms)), [V([a])] + args, kw, node, star, dstar, maybe)
                if o.cls.ext_bases():
                    return self.ext.bound_ext_call(self, Bound(V([a]), Ext(o.cls.ext_bases()[0] + ".__call__")), args, kw, node, star, dstar)
            if o is not None and o.kind == "partial":
                pargs, pkw = o.info
                return self.call(o.elem, list(pargs) + args, {**pkw, **kw}, node, star, dstar)
        allv = args + list(kw.values()) + ([star] if star is not None else []) + ([dstar] if dstar is not None else [])
        self.dom.on_unknown_call(a, fv, args, kw, node)
        self.ext.run_callbacks(self, "unknown", allv, node)
        f = [self.flat(x) for x in allv] + [fv]
        return top("any", *f, tag=self.dom.unknown_call(fv, [self.flat(x) for x in allv], node))

    def instantiate(self, cls, args, kw, node, star=None, dstar=None, maybe=()):
        i = self.alloc("obj", cls.name)
        self.st.mut(i).cls = cls
        rv = V([Ref(i)])
        ci, init = cls.find("__init__")
        if cls.dataclass and init is None:
            fields = cls.all_fields()
            o = self.st.mut(i)
            vals = {}
            for (n, d), x in zip(fields, args):
                vals[n] = x
            if len(args) > len(fields):
                self.dom.on_bind_error(cls.name, "too many positional arguments", node)
            for k, x in kw.items():
                if not any(f[0] == k for f in fields):
                    self.dom.on_bind_error(cls.name, f"unexpected field {k!r}", node)
                vals[k] = x
            for n, d in fields:
                if n not in vals:
                    if d is None and star is None and dstar is None:
                        self.dom.on_bind_error(cls.name, f"missing field {n!r}", node)
                    vals[n] = self.dc_default(d) if d is not None else (star or dstar or ANY)
            o.attrs.update(vals)
            self.dom.on_construct(cls, i, vals, node)
            ci, post = cls.find("__post_init__")
            if post is not None:
                self.call_func(next(iter(post.atoms)), [rv], {}, node)
            return self.dom.construct_result(cls, rv, node)
        self.dom.on_alloc(cls, i, node)
        if init is not None:
            self.call_func(next(iter(init.atoms)), [rv] + args, kw, node, star, dstar, maybe)
        elif cls.ext_bases():
            if any(b.split(".")[-1] in EXC_NAMES for b in cls.ext_bases()):
                return rv
            self.ext.ext_base_init(self, i, cls, args, kw, node)
        else:
            if (args or kw) and not any(cls.ext_bases()):
                self.dom.on_bind_error(cls.name, "takes no arguments", node)
        self.dom.on_construct(cls, i, None, node)
        return self.dom.construct_result(cls, rv, node)

    def dc_default(self, d):
        for a in d.atoms:
            if isinstance(a, ExtMeth) or isinstance(a, T):
                return d
        return d

    def bind(self, f, args, kw, node, star, dstar, maybe=()):
        a = f.node.args
        pos = [p.arg for p in a.posonlyargs + a.args]
        vals = {}
        errs = []
        for n, v in zip(pos, args):
            vals[n] = v
        extra = args[len(pos):]
        if extra and not a.vararg:
            errs.append(f"takes {len(pos)} positional arguments but {len(args)} were given")
        kwrest = {}
        names = set(pos[len(a.posonlyargs):]) | {p.arg for p in a.kwonlyargs}
        for k, v in kw.items():
            if k in names:
                if k in vals:
                    errs.append(f"multiple values for argument {k!r}")
                if k in maybe:
                    vals[k] = v       # joined with the default below
                else:
                    vals[k] = v
            elif a.kwarg:
                kwrest[k] = v
            elif k not in maybe:
                errs.append(f"unexpected keyword argument {k!r}")
        nd = len(pos) - len(f.defaults)
        unknown = None
        if star is not None:
            unknown = self.elem(star)
        for i, n in enumerate(pos):
            d = f.defaults[i - nd] if i >= nd else None
            if n in vals:
                if n in maybe and d is not None and n in kw:
                    vals[n] = self.join(vals[n], d)
                continue
            if i >= nd:
                v = d
                if star is not None:
                    v = self.join(v, unknown)
                if dstar is not None:
                    v = self.join(v, dstar)
                vals[n] = v
            elif star is not None:
                vals[n] = unknown
            elif dstar is not None:
                vals[n] = dstar
            else:
                errs.append(f"missing required argument {n!r}")
                vals[n] = ANY
        for i, p in enumerate(a.kwonlyargs):
            d = f.kwdefaults[i] if i < len(f.kwdefaults) else None
            if p.arg in vals:
                if p.arg in maybe and d is not None:
                    vals[p.arg] = self.join(vals[p.arg], d)
                continue
            if d is None:
                if dstar is None:
                    errs.append(f"missing keyword-only argument {p.arg!r}")
                vals[p.arg] = dstar if dstar is not None else ANY
            else:
                vals[p.arg] = d if dstar is None else self.join(d, dstar)
        if a.vararg:
            if star is not None:
                i = self.alloc("list", "varargs")
                self.st.mut(i).elem = self.joinall(extra + [unknown])
                vals[a.vararg.arg] = V([Ref(i)], star.deps, star.cdeps)
            else:
                vals[a.vararg.arg] = V([Tup(extra)])
        if a.kwarg:
            i = self.alloc("dict", "kwargs")
            o = self.st.mut(i)
            for k, v in kwrest.items():
                o.attrs[k] = v if k not in maybe else v.w(atoms=v.atoms | {U(EMPTY)})
            if dstar is not None:
                o.open, o.elem = True, dstar
            vals[a.kwarg.arg] = V([Ref(i)])
        return vals, errs

    def call_func(self, f, args, kw, node, star=None, dstar=None, maybe=()):
        if self.st is None:
            raise Dead()
        depth = len(self.callstack)
        same = sum(1 for n in self.callstack if n is f.node)
        allv = args + list(kw.values())
        if depth >= MAX_DEPTH or same >= 2:
            fl = [self.flat(x) for x in allv]
            return top("any", *fl, tag=self.dom.recursion(f, fl))
        r = self.dom.intercept(f, args, kw, node)
        if r is not None:
            return r
        vals, errs = self.bind(f, args, kw, node, star, dstar, maybe)
        if errs:
            self.dom.on_bind_error(f.qual, "; ".join(errs), node)
            self.do_raise("TypeError", node)
            raise Dead()
        self.called.add(f.qual)
        fid = self.newid("fr:" + f.qual)
        born = int(fid[fid.rindex("#") + 1:])
        attrs = {}
        for k, v in vals.items():
            attrs[k] = self.dom.on_param(f, k, v)
        # locals assigned somewhere in the function start unbound
        for n in local_names(f.node):
            if n not in attrs:
                attrs[n] = V([U(EMPTY)])
        self.st.new(fid, HObj("frame", attrs=attrs, info={"parent": f.frame}))
        ctx = Ctx(f, fid, node, f.qual, f.mod)
        self.ctxs.append(ctx)
        self.callstack.append(f.node)
        saved_facts = self.st.facts
        dsave = self.dom.enter(f, ctx, vals)
        try:
            if isinstance(f.node, ast.Lambda):
                try:
                    v = self.eval(f.node.body)
                    v = self.dom.on_return(v, f.node, ctx)
                    ctx.rets.append((self.st, v))
                except Dead:
                    pass
            else:
                self.exec_block(f.node.body)
                if self.st is not None:
                    self.do_return(NONE, f.node)
        finally:
            self.ctxs.pop()
            self.callstack.pop()
            self.dom.leave(f, ctx, dsave)
        if not ctx.rets:
            self.st = None
            raise Dead()
        st, v = ctx.rets[0]
        ctl = V(EMPTY, ctx.pc_extra) if ctx.pc_extra else None
        for s2, v2 in ctx.rets[1:]:
            st = self.join_states(st, s2, ctl)
            v = self.join(v, v2)
        self.st = st
        self.st.facts = saved_facts
        if fid not in self.captured:
            self.st.heap.pop(fid, None)
        if ctx.yields is not None:
            i = self.alloc("list", "gen")
            self.st.mut(i).elem = ctx.yields
            v = V([Ref(i)])
        v = self.dom.call_result(f, vals, v, node)
        self.collect(born, v)
        return v

    def collect(self, born, v):
        """drop heap objects allocated since `born` that nothing outside can reach any more"""
        heap = self.st.heap
        new = {k for k in heap if int(k[k.rindex("#") + 1:]) >= born}
        if len(new) < 8:
            return
        live = set()
        todo = []

        def val(x):
            for a in x.atoms:
                atom(a)

        def atom(a):
            if isinstance(a, Ref):
                if a.id in new and a.id not in live:
                    live.add(a.id)
                    todo.append(a.id)
            elif isinstance(a, Tup):
                for y in a.items:
                    val(y)
            elif isinstance(a, Func):
                if a.frame in new and a.frame not in live:
                    live.add(a.frame)
                    todo.append(a.frame)
                for y in a.defaults:
                    val(y)
            elif isinstance(a, Bound):
                val(a.recv)
                atom(a.func)
            elif isinstance(a, (ExtMeth, Super)):
                val(a.recv)

        def obj(o):
            for x in o.attrs.values():
                val(x)
            if o.items is not None:
                for x in o.items:
                    val(x)
            if o.elem is not None:
                val(o.elem)
            if o.kind == "partial":
                for x in list(o.info[0]) + list(o.info[1].values()):
                    val(x)
            elif o.info and o.info.get("parent") in new and o.info["parent"] not in live:
                live.add(o.info["parent"])
                todo.append(o.info["parent"])
        val(v)
        for k, o in heap.items():
            if k not in new:
                obj(o)
        for c in self.ctxs:
            if c.frame in new and c.frame not in live:
                live.add(c.frame)
                todo.append(c.frame)
        while todo:
            o = heap.get(todo.pop())
            if o is not None:
                obj(o)
        for k in new - live:
            del heap[k]


OPM = {ast.Add: "__add__", ast.Sub: "__sub__", ast.Mult: "__mul__", ast.Div: "__truediv__"}
ROPM = {ast.Add: "__radd__", ast.Sub: "__rsub__", ast.Mult: "__rmul__", ast.Div: "__rtruediv__"}

_LOCALS = {}


def flag_of(v):
    """the truth value v certainly is (True/False), else None"""
    got = {a.v for a in v.atoms if isinstance(a, C) and isinstance(a.v, bool)}
    return got.pop() if len(got) == 1 and all(isinstance(a, C) and isinstance(a.v, bool) for a in v.atoms) else None


def renamed(fid, o, j):
    """new names of the flag facts about the attributes of o that got a new name in the joined object j"""
    return {(fid, k, v.sn): j.attrs[k].sn for k, v in o.attrs.items()
            if k in j.attrs and j.attrs[k].sn != v.sn and (flag_of(v) is not None or len(v.atoms) > 1)}


def unbound_under(v, facts, ren=None):
    """the branch facts hold whenever v is unbound on this side of a join"""
    us = [a for a in v.atoms if isinstance(a, U)]
    if not us or (not facts and not ren):
        return v

    def more(u):
        f = u.facts | facts
        for k, p in u.facts if ren else ():
            if k[0] in ("none", "flag") and k[1:] in ren:
                f = f | {((k[0], k[1], k[2], ren[k[1:]]), p)}
        return U(f)
    new = frozenset(more(a) if isinstance(a, U) else a for a in v.atoms)
    return v if new == v.atoms else v.w(atoms=new, sn=v.sn)



def local_names(fn):
    """names bound in the function body (not nested functions), except global/nonlocal"""
    r = _LOCALS.get(fn)
    if r is not None:
        return r
    names, gl = set(), set()
    if isinstance(fn, ast.Lambda):
        _LOCALS[fn] = ()
        return ()

    def visit(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            names.add(n.name)
            for d in n.decorator_list:
                visit(d)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    names.add(x.target.id)
            return
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            gl.update(n.names)
            return
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                names.add((a.asname or a.name).split(".")[0])
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            names.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        for c in ast.iter_child_nodes(n):
            visit(c)
    for s in fn.body:
        visit(s)
    r = frozenset(names - gl)
    _LOCALS[fn] = r
    return r
