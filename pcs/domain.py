"""Base class of analysis domains: every hook the interpreter calls, with neutral defaults."""
from __future__ import annotations
from .values import *


class Domain:
    quiet = False
    fold_numeric = False
    numeric_inputs = False      # assume numeric inputs convert to float
    model_expect = False        # follow scipy's expect into pdf and the integrand
    I = None

    def __init__(self):
        self.findings = {}

    # ---- reporting
    def report(self, rule, node, construct, msg):
        if self.quiet:
            return
        key = (rule, construct)
        if key not in self.findings:
            self.findings[key] = dict(rule=rule, construct=construct, loc=self.I.loc(node), func=self.I.qual(),
                                      msg=msg, path=self.I.path())

    # ---- lattice
    def join(self, a, b):
        return a if a == b else (a if b is None else b if a is None else self.lub(a, b))

    def join_v(self, a, b):
        return a.tag if a.tag == b.tag else self.join(a.tag, b.tag)

    def flat_tag(self, v, xs):
        tag = v.tag
        for x in xs:
            tag = x.tag if tag == x.tag else self.join(tag, x.tag)
        return tag

    def join_store(self, old, tag, idx=None):
        return tag if old.tag == tag else self.join(old.tag, tag)

    def widen_tag(self, old, new):
        return new.tag

    def loop_begin(self, s, it):
        return None

    def loop_end(self, s, it, tok):
        pass

    def lub(self, a, b):
        return a

    def join_control(self, ctl, a, b, tag):
        return tag

    # ---- statements / state
    def on_return(self, v, node, ctx):
        return v

    def on_assign(self, name, v, node):
        return v

    def on_mutate(self, regions, how, node, base):
        pass

    def on_store(self, base, idx, v, node):
        return v

    def on_lookup(self, base, idx, v, node):
        return v

    def store_tag(self, base, idx, v):
        return v.tag

    def on_setattr(self, oid, obj, name, v, node):
        return v

    def on_getattr(self, oid, obj, name, v, node):
        return v

    def ext_base_attr(self, oid, obj, name, node):
        return None

    def on_missing_attr(self, obj, name, node, definite):
        pass

    def on_missing_key(self, obj, key, node, definite):
        pass

    def on_unbound(self, name, node, definite):
        pass

    def on_undefined(self, name, node):
        pass

    def on_none_attr(self, name, node, base):
        pass

    def on_bind_error(self, qual, msg, node):
        pass

    def on_global_write(self, name, v):
        pass

    def on_branch(self, node, tv, t):
        pass

    def on_guard(self, test, tv, node):
        pass

    def on_raise(self, name, node):
        pass

    def on_handler(self, h, names, node):
        pass

    def on_handler_end(self, h, names, node):
        pass

    def push_pc(self, tv):
        return None

    def pop_pc(self, token):
        pass

    def escape_pc(self, tv, ctx):
        pass

    def refine_compare(self, test, pos):
        pass

    # ---- expressions
    def unary(self, op, v):
        return v.tag

    def bin(self, op, l, r, node):
        return self.join(l.tag, r.tag)

    def compare(self, op, l, r, node):
        return None

    def index(self, base, idx, kind, node):
        return base.tag

    def iter_elem(self, v):
        return v.tag

    def loop_elem(self, it, e, node):
        return e

    def unpack_elem(self, v, i, e):
        return e

    def comp_result(self, v, ctls, outs, node):
        return v

    def ext_value(self, atom, base):
        return None

    def attr(self, recv, name, node):
        return recv.tag

    def lossy(self, kind, vs, node):
        """may return a V for formatting and floor division"""
        return None

    # ---- calls
    def on_param(self, f, name, v):
        return v

    def enter(self, f, ctx, vals):
        return None

    def leave(self, f, ctx, token):
        pass

    def call_result(self, f, vals, v, node):
        return v

    def intercept(self, f, args, kw, node):
        return None

    def recursion(self, f, args):
        t = None
        for a in args:
            t = self.join(t, a.tag)
        return t

    def on_unknown_call(self, atom, fv, args, kw, node):
        pass

    def unknown_call(self, fv, args, node):
        t = fv.tag
        for a in args:
            t = self.join(t, a.tag)
        return t

    def on_alloc(self, cls, oid, node):
        pass

    def on_construct(self, cls, oid, vals, node):
        pass

    def construct_result(self, cls, v, node):
        return v

    def ext_first(self, name, args, kw, node):
        """may return a V for an external or builtin call, before any model (or raise Dead)"""
        return None

    def attr_value(self, recv, name, node):
        """may return a V for an attribute of an array-like value"""
        return None

    def ext_pre(self, name, args, kw, node):
        """may return a V to replace the generic model of an external call"""
        return None

    def ext(self, name, cat, args, kw, node):
        """tag of the result of an external call (args are flattened)"""
        t = None
        for a in list(args) + list(kw.values()):
            t = self.join(t, a.tag)
        return t

    def callback_arg(self, name, i, args, fnode):
        return None

    def rv_locscale(self, recv, last, loc, scale, node):
        """scipy evaluates a method of a distribution with this loc and scale"""

    def rv_shape(self, last, s):
        """a shape parameter as scipy hands it to a hook: repeated once per evaluated point"""
        return s

    def rv_arg(self, last, x):
        return x

    def rv_check(self, recv, shapes, method, node):
        pass
