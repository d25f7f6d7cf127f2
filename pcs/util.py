"""Helpers shared by the checks."""
from .values import *


def reachable(st, v, skip=(), limit=4000):
    """(path, V) for every value reachable from v in state st through containers and object attributes"""
    seen = set()
    stack = [("", v)]
    n = 0
    while stack and n < limit:
        p, x = stack.pop()
        n += 1
        yield p, x
        for a in x.atoms:
            if isinstance(a, Tup):
                for i, y in enumerate(a.items):
                    stack.append((f"{p}[{i}]", y))
            elif isinstance(a, Ref):
                if a.id in seen:
                    continue
                seen.add(a.id)
                o = st.get(a.id)
                if o is None:
                    continue
                sep = "." if o.kind == "obj" else ":"
                for k, y in o.attrs.items():
                    if k in skip:
                        continue
                    stack.append((f"{p}{sep}{k}", y))
                for y in (o.items or ()):
                    stack.append((p + "[]", y))
                if o.elem is not None:
                    stack.append((p + "[]", o.elem))


def self_of(I):
    """HObj of the receiver `self` of the innermost call, or None"""
    fid = I.frame()
    fo = I.st.get(fid)
    while fo is not None:
        v = fo.attrs.get("self")
        if v is not None:
            for r in v.refs():
                return r, I.st.get(r)
            return None, None
        fid = fo.info.get("parent") if fo.info else None
        fo = I.st.get(fid) if fid is not None else None
    return None, None


def param_default(f, name):
    from .entries import func_params
    for n, d, ko in func_params(f):
        if n == name:
            return d
    return None
