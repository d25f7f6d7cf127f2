"""Behaviour-preserving rewrites of a whole source tree, to test that the checks stay quiet.
usage: refactor.py KIND DIR   (DIR/pycircstat2/*.py rewritten in place; KIND in the table at the end, or a comma list)"""
import ast, sys, glob, copy, builtins

FN = (ast.FunctionDef, ast.AsyncFunctionDef)


def names(n, ctx=None):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and (ctx is None or isinstance(x.ctx, ctx))}


def params(f):
    a = f.args
    return {p.arg for p in a.posonlyargs + a.args + a.kwonlyargs} | ({a.vararg.arg} if a.vararg else set()) | ({a.kwarg.arg} if a.kwarg else set())


def simple(f):
    return not any(isinstance(x, FN + (ast.Lambda, ast.ClassDef, ast.Global, ast.Import, ast.ImportFrom, ast.Nonlocal, ast.Yield, ast.YieldFrom)) for b in f.body for x in ast.walk(b))


def blocks(tree):
    for n in ast.walk(tree):
        for k in ("body", "orelse", "finalbody"):
            b = getattr(n, k, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield n, k, b


def infn(tree):
    for f in ast.walk(tree):
        if isinstance(f, FN):
            yield f


def outer(tree):
    """functions and methods that are not nested in others"""
    return [f for s in tree.body for f in ([s] if isinstance(s, FN) else s.body if isinstance(s, ast.ClassDef) else []) if isinstance(f, FN)]


def rename(tree):
    for f in infn(tree):
        if not simple(f) or any(isinstance(x, (ast.Call,)) and isinstance(x.func, ast.Name) and x.func.id in ("locals", "vars", "eval") for x in ast.walk(f)):
            continue
        loc = {n for b in f.body for n in names(b, ast.Store)} - params(f)
        comp = {n for x in ast.walk(f) if isinstance(x, ast.comprehension) for n in names(x.target)}
        loc -= comp | {(a.asname or a.name).split(".")[0] for x in ast.walk(f) if isinstance(x, (ast.Import, ast.ImportFrom)) for a in x.names}
        for b in f.body:
            for x in ast.walk(b):
                if isinstance(x, ast.Name) and x.id in loc:
                    x.id = x.id + "_v"
                elif isinstance(x, ast.ExceptHandler) and x.name in loc:
                    x.name += "_v"


def flip(tree):
    for n in ast.walk(tree):
        if isinstance(n, ast.If) and n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
            n.test = ast.UnaryOp(ast.Not(), n.test)
            n.body, n.orelse = n.orelse, n.body
        elif isinstance(n, ast.IfExp):
            n.test = ast.UnaryOp(ast.Not(), n.test)
            n.body, n.orelse = n.orelse, n.body


def rettmp(tree):
    for n, k, b in list(blocks(tree)):
        out = []
        for s in b:
            if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
                out.append(ast.Assign([ast.Name("out_value", ast.Store())], s.value))
                s = ast.Return(ast.Name("out_value", ast.Load()))
            out.append(s)
        b[:] = out


def ifexp(tree):
    for n, k, b in list(blocks(tree)):
        if isinstance(n, ast.ClassDef):
            continue
        out = []
        for s in b:
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp):
                e = s.value
                s = ast.If(e.test, [ast.Assign(s.targets, e.body)], [ast.Assign(copy.deepcopy(s.targets), e.orelse)])
            elif isinstance(s, ast.Return) and isinstance(s.value, ast.IfExp):
                e = s.value
                s = ast.If(e.test, [ast.Return(e.body)], [ast.Return(e.orelse)])
            out.append(s)
        b[:] = out


def comploop(tree):
    for f in list(infn(tree)):
        if not simple(f):
            continue
        for n, k, b in list(blocks(f)):
            out = []
            for s in b:
                v = s.value if isinstance(s, (ast.Assign, ast.Return)) else None
                call = None
                if isinstance(v, ast.Call) and len(v.args) >= 1 and isinstance(v.args[0], ast.ListComp):
                    call, v = v, v.args[0]
                if isinstance(v, ast.ListComp) and len(v.generators) == 1 and not any(isinstance(x, (ast.ListComp, ast.GeneratorExp)) for c in ast.iter_child_nodes(v) for x in ast.walk(c)):
                    g = v.generators[0]
                    ren = {n: n + "_c" for n in names(g.target)}
                    g2 = copy.deepcopy(g)
                    el = copy.deepcopy(v.elt)
                    for t in [g2.target, el] + g2.ifs:
                        for x in ast.walk(t):
                            if isinstance(x, ast.Name) and x.id in ren:
                                x.id = ren[x.id]
                    body = [ast.Expr(ast.Call(ast.Attribute(ast.Name("acc_list", ast.Load()), "append", ast.Load()), [el], []))]
                    for c in reversed(g2.ifs):
                        body = [ast.If(c, body, [])]
                    out.append(ast.Assign([ast.Name("acc_list", ast.Store())], ast.List([], ast.Load())))
                    out.append(ast.For(g2.target, g.iter, body, []))
                    if call is not None:
                        call.args[0] = ast.Name("acc_list", ast.Load())
                    else:
                        s.value = ast.Name("acc_list", ast.Load())
                out.append(s)
            b[:] = out


def loopcomp(tree):
    """x = []; for t in it: x.append(e)  ->  x = [e for t in it]"""
    for f in list(infn(tree)):
        for n, k, b in list(blocks(f)):
            i = 0
            while i + 1 < len(b):
                a, l = b[i], b[i + 1]
                if isinstance(a, ast.Assign) and len(a.targets) == 1 and isinstance(a.targets[0], ast.Name) and isinstance(a.value, ast.List) and not a.value.elts and isinstance(l, ast.For) \
                        and len(l.body) == 1 and not l.orelse and isinstance(l.body[0], ast.Expr) and isinstance(l.body[0].value, ast.Call):
                    c = l.body[0].value
                    if isinstance(c.func, ast.Attribute) and c.func.attr == "append" and isinstance(c.func.value, ast.Name) and c.func.value.id == a.targets[0].id and a.targets[0].id not in names(c.args[0]):
                        a.value = ast.ListComp(c.args[0], [ast.comprehension(l.target, l.iter, [], 0)])
                        del b[i + 1]
                i += 1


def rangeloop(tree):
    """for x in name: -> for k in range(len(name)): x = name[k];  enumerate likewise"""
    k = 0
    for f in list(infn(tree)):
        for x in ast.walk(f):
            if isinstance(x, ast.For) and isinstance(x.target, ast.Tuple) and isinstance(x.iter, ast.Call) and isinstance(x.iter.func, ast.Name) and x.iter.func.id == "enumerate" \
                    and len(x.iter.args) == 1 and isinstance(x.iter.args[0], ast.Name) and isinstance(x.target.elts[0], ast.Name):
                seq, i, t = x.iter.args[0], x.target.elts[0], x.target.elts[1]
                x.target = i
                x.iter = ast.Call(ast.Name("range", ast.Load()), [ast.Call(ast.Name("len", ast.Load()), [seq], [])], [])
                x.body.insert(0, ast.Assign([t], ast.Subscript(seq, ast.Name(i.id, ast.Load()), ast.Load())))


def whileloop(tree):
    """for i in range(n): body -> while"""
    for f in list(infn(tree)):
        for n, k, b in list(blocks(f)):
            out = []
            for s in b:
                if isinstance(s, ast.For) and isinstance(s.target, ast.Name) and not s.orelse and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == "range" \
                        and len(s.iter.args) == 1 and not any(isinstance(x, ast.Continue) for c in s.body for x in ast.walk(c)) and s.target.id not in {n for c in s.body for n in names(c, ast.Store)}:
                    i, e = s.target.id, "stop_" + s.target.id + str(s.lineno)
                    c = "cnt_" + s.target.id + str(s.lineno)
                    out.append(ast.Assign([ast.Name(e, ast.Store())], s.iter.args[0]))
                    out.append(ast.Assign([ast.Name(c, ast.Store())], ast.Constant(0)))
                    s = ast.While(ast.Compare(ast.Name(c, ast.Load()), [ast.Lt()], [ast.Name(e, ast.Load())]),
                                  [ast.Assign([ast.Name(i, ast.Store())], ast.Name(c, ast.Load()))] + s.body + [ast.AugAssign(ast.Name(c, ast.Store()), ast.Add(), ast.Constant(1))], [])
                out.append(s)
            b[:] = out


def elseguard(tree):
    """if c: return A; rest  ->  if c: return A else: rest"""
    for n, k, b in list(blocks(tree)):
        for i, s in enumerate(b[:-1]):
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise)) and not any(isinstance(x, FN + (ast.ClassDef,)) for x in b[i + 1:]):
                if isinstance(n, FN + (ast.If,)):
                    s.orelse = b[i + 1:]
                    del b[i + 1:]
                    break


def impl(tree):
    """module functions: body moved into a helper with the same parameters"""
    out = []
    for s in tree.body:
        if isinstance(s, ast.FunctionDef) and not s.decorator_list and not s.args.posonlyargs and not s.args.vararg and not s.args.kwarg:
            h = copy.deepcopy(s)
            h.name = "_" + s.name.lstrip("_") + "_body"
            h.args.defaults, h.args.kw_defaults = [], [None] * len(h.args.kwonlyargs)
            h.returns = None
            doc = s.body[:1] if isinstance(s.body[0], ast.Expr) and isinstance(s.body[0].value, ast.Constant) else []
            s.body = doc + [ast.Return(ast.Call(ast.Name(h.name, ast.Load()), [ast.Name(a.arg, ast.Load()) for a in s.args.args],
                                                [ast.keyword(a.arg, ast.Name(a.arg, ast.Load())) for a in s.args.kwonlyargs]))]
            out.append(h)
        out.append(s)
    tree.body = out


def methimpl(tree):
    """methods without super(): body moved into a private method"""
    for c in [x for x in tree.body if isinstance(x, ast.ClassDef)]:
        out = []
        for s in c.body:
            if isinstance(s, ast.FunctionDef) and not s.decorator_list and s.args.args and s.args.args[0].arg == "self" and not s.args.posonlyargs and not s.name.startswith("__") and \
                    not any(isinstance(x, ast.Name) and x.id in ("super", "__class__") for x in ast.walk(s)):
                h = copy.deepcopy(s)
                h.name = "_body_of_" + s.name.lstrip("_") + ("_p" if s.name.startswith("_") else "")
                h.args.defaults, h.args.kw_defaults = [], [None] * len(h.args.kwonlyargs)
                doc = s.body[:1] if isinstance(s.body[0], ast.Expr) and isinstance(s.body[0].value, ast.Constant) else []
                args = [ast.Name(a.arg, ast.Load()) for a in s.args.args[1:]] + ([ast.Starred(ast.Name(s.args.vararg.arg, ast.Load()), ast.Load())] if s.args.vararg else [])
                kws = [ast.keyword(a.arg, ast.Name(a.arg, ast.Load())) for a in s.args.kwonlyargs] + ([ast.keyword(None, ast.Name(s.args.kwarg.arg, ast.Load()))] if s.args.kwarg else [])
                s.body = doc + [ast.Return(ast.Call(ast.Attribute(ast.Name("self", ast.Load()), h.name, ast.Load()), args, kws))]
                out.append(h)
            out.append(s)
        c.body = out


def hoist(tree):
    """f(g(x), ..) -> t = g(x); f(t, ..) in assignments and returns whose outer function is a plain dotted name"""
    k = [0]

    def dotted(e):
        return isinstance(e, ast.Name) or isinstance(e, ast.Attribute) and dotted(e.value)
    for f in infn(tree):
        for n, kk, b in list(blocks(f)):
            out = []
            for s in b:
                v = s.value if isinstance(s, (ast.Assign, ast.Return)) else None
                if isinstance(v, ast.Call) and dotted(v.func) and v.args and isinstance(v.args[0], ast.Call) and all(isinstance(t, ast.Name) for t in getattr(s, "targets", [])):
                    k[0] += 1
                    t = f"tmp_{k[0]}"
                    out.append(ast.Assign([ast.Name(t, ast.Store())], v.args[0]))
                    v.args[0] = ast.Name(t, ast.Load())
                elif isinstance(v, ast.BinOp) and isinstance(v.left, (ast.Call, ast.BinOp)) and all(isinstance(t, ast.Name) for t in getattr(s, "targets", [])):
                    k[0] += 1
                    t = f"tmp_{k[0]}"
                    out.append(ast.Assign([ast.Name(t, ast.Store())], v.left))
                    v.left = ast.Name(t, ast.Load())
                out.append(s)
            b[:] = out


def commute(tree):
    M = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
    for x in ast.walk(tree):
        if isinstance(x, ast.BinOp) and isinstance(x.op, ast.Mult) and not any(isinstance(y, (ast.List, ast.Constant)) and not isinstance(getattr(y, "value", 0), (int, float)) for y in (x.left, x.right)):
            x.left, x.right = x.right, x.left
        elif isinstance(x, ast.Compare) and len(x.ops) == 1 and type(x.ops[0]) in M:
            x.ops[0] = M[type(x.ops[0])]()
            x.left, x.comparators[0] = x.comparators[0], x.left


def aug(tree):
    class A(ast.NodeTransformer):
        def visit_AugAssign(self, n):
            if isinstance(n.target, ast.Name):
                return ast.copy_location(ast.Assign([n.target], ast.BinOp(ast.Name(n.target.id, ast.Load()), n.op, n.value)), n)
            return n
    A().visit(tree)


def nestand(tree):
    for x in ast.walk(tree):
        if isinstance(x, ast.If) and not x.orelse and isinstance(x.test, ast.BoolOp) and isinstance(x.test.op, ast.And):
            v = x.test.values
            x.body = [ast.If(v[-1] if len(v) == 2 else ast.BoolOp(ast.And(), v[1:]), x.body, [])]
            x.test = v[0]


def demorgan(tree):
    for x in ast.walk(tree):
        if isinstance(x, ast.If) and isinstance(x.test, ast.BoolOp):
            o = ast.And() if isinstance(x.test.op, ast.Or) else ast.Or()
            x.test = ast.UnaryOp(ast.Not(), ast.BoolOp(o, [ast.UnaryOp(ast.Not(), v) for v in x.test.values]))


def alias(tree):
    M = {"mod": "remainder", "abs": "absolute", "max": "amax", "min": "amin", "round": "around", "asarray": "array", "concatenate": "concatenate", "hstack": "hstack", "power": "float_power" }
    M = {k: v for k, v in M.items() if k not in ("asarray", "power")}
    for x in ast.walk(tree):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == "np" and x.func.attr in M:
            x.func.attr = M[x.func.attr]


def pct(tree):
    """np.mod(a, b) -> np.asarray(a) % b"""
    for x in ast.walk(tree):
        for k, v in ast.iter_fields(x):
            def sw(v):
                if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and isinstance(v.func.value, ast.Name) and v.func.value.id == "np" and v.func.attr == "mod" and len(v.args) == 2 and not v.keywords:
                    return ast.BinOp(ast.Call(ast.Attribute(ast.Name("np", ast.Load()), "asarray", ast.Load()), [v.args[0]], []), ast.Mod(), v.args[1])
                return v
            if isinstance(v, list):
                setattr(x, k, [sw(y) for y in v])
            elif isinstance(v, ast.AST):
                setattr(x, k, sw(v))


def pure(e):
    for x in ast.walk(e):
        if isinstance(x, ast.Call):
            u = ast.unparse(x.func)
            if not (u.startswith(("np.", "math.")) and "random" not in u or u in ("len", "float", "int", "abs", "max", "min")):
                return False
        if isinstance(x, (ast.Yield, ast.Await, ast.NamedExpr)):
            return False
    return True


def reorder(tree):
    """swap neighbouring independent pure assignments to plain names"""
    for f in infn(tree):
        for n, k, b in list(blocks(f)):
            i = 0
            while i + 1 < len(b):
                p, q = b[i], b[i + 1]
                if all(isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and pure(s.value) for s in (p, q)):
                    tp, tq = p.targets[0].id, q.targets[0].id
                    if tp != tq and tp not in names(q.value) and tq not in names(p.value):
                        b[i], b[i + 1] = q, p
                        i += 1
                i += 1


def rethelp(tree):
    """return expressions and the right sides of assignments with two or more calls move to module functions of their free locals"""
    new, k = [], 0
    for f in outer(tree):
        if not simple(f):
            continue
        loc = params(f) | {n for b in f.body for n in names(b, ast.Store)}
        for n, kk, b in list(blocks(f)):
            for s in b:
                if not isinstance(s, (ast.Return, ast.Assign)) or s.value is None or sum(isinstance(x, ast.Call) for x in ast.walk(s.value)) < 2:
                    continue
                if any(isinstance(x, ast.Name) and x.id == "super" or isinstance(x, (ast.NamedExpr, ast.Starred)) for x in ast.walk(s.value)):
                    continue
                comp = {n for x in ast.walk(s.value) if isinstance(x, ast.comprehension) for n in names(x.target)}
                # short circuits may leave names unbound
                if any(isinstance(x, (ast.IfExp, ast.BoolOp)) for x in ast.walk(s.value)):
                    continue
                if comp & loc or any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "locals" for x in ast.walk(s.value)):
                    continue
                free = sorted(names(s.value, ast.Load) & loc - comp)
                k += 1
                h = f"_part_{k}"
                new.append(ast.FunctionDef(h, ast.arguments([], [ast.arg(a) for a in free], None, [], [], None, []), [ast.Return(s.value)], [], type_params=[]))
                s.value = ast.Call(ast.Name(h, ast.Load()), [ast.Name(a, ast.Load()) for a in free], [])
    tree.body += new


def blockhelp(tree):
    """if-branches that are plain assignments move to module functions returning what they assign"""
    new, k = [], 0
    for f in outer(tree):
        if not simple(f):
            continue
        loc = params(f) | {n for b in f.body for n in names(b, ast.Store)}
        for n, kk, b in list(blocks(f)):
            if not isinstance(n, ast.If) or len(b) < 2 or not all(isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) for s in b):
                continue
            st, free = [], set()
            for s in b:
                comp = {n for x in ast.walk(s.value) if isinstance(x, ast.comprehension) for n in names(x.target)}
                free |= (names(s.value, ast.Load) & loc) - set(st) - comp
                st.append(s.targets[0].id)
            st = list(dict.fromkeys(st))
            if any(isinstance(x, ast.comprehension) for s in b for x in ast.walk(s)):
                continue
            if any(isinstance(x, ast.Name) and x.id == "super" for s in b for x in ast.walk(s)):
                continue
            k += 1
            h, fr = f"_branch_{k}", sorted(free)
            new.append(ast.FunctionDef(h, ast.arguments([], [ast.arg(a) for a in fr], None, [], [], None, []),
                                       list(b) + [ast.Return(ast.Tuple([ast.Name(x, ast.Load()) for x in st], ast.Load()))], [], type_params=[]))
            b[:] = [ast.Assign([ast.Tuple([ast.Name(x, ast.Store()) for x in st], ast.Store())], ast.Call(ast.Name(h, ast.Load()), [ast.Name(a, ast.Load()) for a in fr], []))]
    tree.body += new


def noop(tree):
    for f in infn(tree):
        i = 1 if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) and len(f.body) > 1 else 0
        f.body.insert(i, ast.Assign([ast.Name("_unused", ast.Store())], ast.Constant(None)))


KINDS = {k: v for k, v in globals().items() if callable(v) and getattr(v, "__code__", None) and v.__code__.co_varnames[:1] == ("tree",) and k not in ("blocks", "infn", "outer")}

if __name__ == "__main__":
    for p in sorted(glob.glob(sys.argv[2] + "/pycircstat2/*.py")):
        t = ast.parse(open(p).read())
        for k in sys.argv[1].split(","):
            KINDS[k](t)
            ast.fix_missing_locations(t)
            t = ast.parse(ast.unparse(t))
        open(p, "w").write(ast.unparse(t) + "\n")
