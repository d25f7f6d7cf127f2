"""Abstract heap and state with copy-on-write and join."""
from __future__ import annotations
from .values import *


class HObj:
    """heap object. kind: frame obj list dict set module"""
    __slots__ = ("kind", "cls", "attrs", "items", "elem", "open", "info", "mem")

    def __init__(self, kind, cls=None, attrs=None, items=None, elem=None, open=False, info=None, mem=EMPTY):
        self.kind, self.cls = kind, cls
        self.attrs = attrs if attrs is not None else {}
        self.items = items          # known sequence contents (list of V) or None
        self.elem = elem            # summary of unknown contents (V or None)
        self.open = open            # dict/obj may have unknown keys
        self.info = info            # free-form (frame: parent id; ...)
        self.mem = mem

    def copy(self):
        return HObj(self.kind, self.cls, dict(self.attrs), None if self.items is None else list(self.items),
                    self.elem, self.open, self.info, self.mem)


class State:
    __slots__ = ("heap", "owned", "facts")

    def __init__(self, heap=None, facts=EMPTY):
        self.heap = heap if heap is not None else {}
        self.owned = set()
        self.facts = facts

    def copy(self):
        self.owned = set()
        return State(dict(self.heap), self.facts)

    def get(self, id):
        return self.heap.get(id)

    def mut(self, id):
        o = self.heap[id]
        if id not in self.owned:
            o = o.copy()
            self.heap[id] = o
            self.owned.add(id)
        return o

    def new(self, id, obj):
        self.heap[id] = obj
        self.owned.add(id)
