"""Abstract values and abstract state of the interpreter (see DESIGN.md, "Engine")."""
from __future__ import annotations

MAX_ATOMS = 14
EMPTY = frozenset()


class Atom:
    __slots__ = ()


class C(Atom):
    """a Python constant"""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def key(self):
        v = self.v
        if isinstance(v, float) and v != v:
            return ("c", "float", "nan")
        return ("c", type(v).__name__, v)

    def __eq__(self, o):
        return isinstance(o, C) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return f"C({self.v!r})"


class T(Atom):
    """unknown value of a type: any num int bool str arr callable seq dict ext"""
    __slots__ = ("t",)

    def __init__(self, t="any"):
        self.t = t

    def __eq__(self, o):
        return isinstance(o, T) and self.t == o.t

    def __hash__(self):
        return hash(("T", self.t))

    def __repr__(self):
        return f"T({self.t})"


class U(Atom):
    """unbound; `facts` = branch facts under which the name is unbound"""
    __slots__ = ("facts",)

    def __init__(self, facts=EMPTY):
        self.facts = facts

    def __eq__(self, o):
        return isinstance(o, U) and self.facts == o.facts

    def __hash__(self):
        return hash(("U", self.facts))

    def __repr__(self):
        return "UNBOUND"


class Tup(Atom):
    __slots__ = ("items", "_h")

    def __init__(self, items):
        self.items = tuple(items)
        self._h = hash(("Tup", self.items))

    def __eq__(self, o):
        return isinstance(o, Tup) and self.items == o.items

    def __hash__(self):
        return self._h

    def __repr__(self):
        return "(" + ",".join(map(repr, self.items)) + ",)"


class Ref(Atom):
    """reference to a heap object"""
    __slots__ = ("id",)

    def __init__(self, id):
        self.id = id

    def __eq__(self, o):
        return isinstance(o, Ref) and self.id == o.id

    def __hash__(self):
        return hash(("Ref", self.id))

    def __repr__(self):
        return f"Ref({self.id})"


class Func(Atom):
    """user function: AST + module + defining frame (closure) + owner class"""
    __slots__ = ("node", "mod", "frame", "cls", "qual", "defaults", "kwdefaults", "kind")

    def __init__(self, node, mod, frame, cls, qual, defaults, kwdefaults, kind="func"):
        self.node, self.mod, self.frame, self.cls = node, mod, frame, cls
        self.qual, self.defaults, self.kwdefaults, self.kind = qual, defaults, kwdefaults, kind

    def key(self):
        return (id(self.node), self.frame)

    def __eq__(self, o):
        return isinstance(o, Func) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return f"Func({self.qual})"


class Bound(Atom):
    """method of a user object: func may be a Func or an external name"""
    __slots__ = ("recv", "func")

    def __init__(self, recv, func):
        self.recv, self.func = recv, func

    def __eq__(self, o):
        return isinstance(o, Bound) and self.recv == o.recv and self.func == o.func

    def __hash__(self):
        return hash((self.recv, self.func))

    def __repr__(self):
        return f"Bound({self.recv},{self.func})"


class Ext(Atom):
    """external symbol, dotted name"""
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Ext) and self.name == o.name

    def __hash__(self):
        return hash(("Ext", self.name))

    def __repr__(self):
        return f"Ext({self.name})"


class ExtMeth(Atom):
    """method/attribute `name` of an unknown (external) value"""
    __slots__ = ("recv", "name")

    def __init__(self, recv, name):
        self.recv, self.name = recv, name

    def __eq__(self, o):
        return isinstance(o, ExtMeth) and self.name == o.name and self.recv == o.recv

    def __hash__(self):
        return hash((self.recv, self.name))

    def __repr__(self):
        return f"ExtMeth({self.recv}.{self.name})"


class ClassA(Atom):
    __slots__ = ("cls",)

    def __init__(self, cls):
        self.cls = cls

    def __eq__(self, o):
        return isinstance(o, ClassA) and self.cls is o.cls

    def __hash__(self):
        return hash(("cls", id(self.cls)))

    def __repr__(self):
        return f"Class({self.cls.name})"


class ModA(Atom):
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, ModA) and self.name == o.name

    def __hash__(self):
        return hash(("mod", self.name))

    def __repr__(self):
        return f"Mod({self.name})"


class Super(Atom):
    __slots__ = ("recv", "cls")

    def __init__(self, recv, cls):
        self.recv, self.cls = recv, cls

    def __eq__(self, o):
        return isinstance(o, Super) and self.recv == o.recv and self.cls is o.cls

    def __hash__(self):
        return hash((self.recv, id(self.cls)))


class Slice(Atom):
    __slots__ = ("lo", "hi", "step")

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step

    def __eq__(self, o):
        return isinstance(o, Slice) and (self.lo, self.hi, self.step) == (o.lo, o.hi, o.step)

    def __hash__(self):
        return hash((self.lo, self.hi, self.step))


import itertools
_SN = itertools.count(1)


class Brk:
    """tag that turns into a dependence label of the value it is put on"""
    __slots__ = ("label", "under")

    def __init__(self, label, under=None):
        self.label, self.under = label, under


class V:
    """abstract value; `sn` is the version: refinements keep it, new values get a new one"""
    __slots__ = ("atoms", "deps", "cdeps", "mem", "tag", "_h", "sn")

    def __init__(self, atoms, deps=EMPTY, cdeps=EMPTY, mem=EMPTY, tag=None, sn=None):
        self.sn = next(_SN) if sn is None else sn
        self.atoms = atoms if isinstance(atoms, frozenset) else frozenset(atoms)
        if tag.__class__ is Brk:
            deps, tag = deps | {tag.label}, tag.under
        self.deps, self.cdeps, self.mem, self.tag = deps, cdeps, mem, tag
        self._h = None

    def __eq__(self, o):
        if self is o:
            return True
        return (isinstance(o, V) and self.deps == o.deps and self.cdeps == o.cdeps and self.mem == o.mem
                and self.tag == o.tag and self.atoms == o.atoms)

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.atoms, self.deps, self.tag))
        return self._h

    def __repr__(self):
        s = "|".join(sorted(map(repr, self.atoms)))
        x = []
        if self.deps: x.append("d=" + ",".join(sorted(map(str, self.deps))))
        if self.cdeps: x.append("c=" + ",".join(sorted(map(str, self.cdeps))))
        if self.mem: x.append("m=" + ",".join(sorted(map(str, self.mem))))
        if self.tag is not None: x.append(f"t={self.tag}")
        return f"<{s} {' '.join(x)}>"

    def w(self, **k):
        """copy with fields replaced"""
        return V(k.get("atoms", self.atoms), k.get("deps", self.deps), k.get("cdeps", self.cdeps),
                 k.get("mem", self.mem), k.get("tag", self.tag), k.get("sn"))

    # --- queries
    def const(self):
        """(True, value) when exactly one constant"""
        if len(self.atoms) == 1:
            a = next(iter(self.atoms))
            if isinstance(a, C):
                return True, a.v
        return False, None

    def is_const(self, v):
        ok, c = self.const()
        return ok and type(c) is type(v) and c == v

    def consts(self):
        """set of constants if all atoms are constants else None"""
        out = []
        for a in self.atoms:
            if not isinstance(a, C):
                return None
            out.append(a.v)
        return out

    def may_none(self):
        for a in self.atoms:
            if isinstance(a, C) and a.v is None: return True
        return False

    def only(self, cls):
        return bool(self.atoms) and all(isinstance(a, cls) for a in self.atoms)

    def refs(self):
        return [a.id for a in self.atoms if isinstance(a, Ref)]


def const(v):
    return V([C(v)])


NONE = V([C(None)])
ANY = V([T("any")])


def top(t="any", *vs, tag=None, mem=EMPTY):
    d, c = EMPTY, EMPTY
    for v in vs:
        d |= v.deps
        c |= v.cdeps
    return V([T(t)], d, c, mem, tag)


def cap_atoms(atoms):
    atoms = frozenset(atoms)
    tups = {}
    other = []
    ntup = 0
    for a in atoms:
        if isinstance(a, Tup):
            ntup += 1
            tups.setdefault(len(a.items), []).append(a)
        else:
            other.append(a)
    if len(atoms) <= MAX_ATOMS:
        return atoms
    # collapse constants by type
    out = set()
    for a in other:
        if isinstance(a, C) and a.v is not None:
            v = a.v
            out.add(T("bool" if isinstance(v, bool) else "int" if isinstance(v, int) else
                      "num" if isinstance(v, (float, complex)) else "str" if isinstance(v, str) else "any"))
        else:
            out.add(a)
    for L in tups.values():
        out.update(L[:3])
    return frozenset(out)
