"""One spelling for conditions: constants on the right, negations pushed inwards, `if not c` with an else branch turned around."""
import ast

FLIP = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
NEG = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}


def const(n):
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.UAdd)):
        n = n.operand
    return isinstance(n, ast.Constant)


def boolean(n):
    """an expression whose value is only asked for its truth"""
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
        return negate(n.operand)
    if isinstance(n, ast.BoolOp):
        n.values = [boolean(v) for v in n.values]
    return n


def negate(n):
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
        return boolean(n.operand)
    if isinstance(n, ast.BoolOp):
        return ast.copy_location(ast.BoolOp(ast.And() if isinstance(n.op, ast.Or) else ast.Or(), [negate(v) for v in n.values]), n)
    if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in NEG and not isinstance(n.ops[0], (ast.Eq, ast.NotEq)):
        n.ops = [NEG[type(n.ops[0])]()]
        return n
    return ast.copy_location(ast.UnaryOp(ast.Not(), n), n)


class Norm(ast.NodeTransformer):
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and const(n.left) and not const(n.comparators[0]) and type(n.ops[0]) in FLIP:
            n.left, n.comparators = n.comparators[0], [n.left]
            n.ops = [FLIP[type(n.ops[0])]()]
        return n

    def branch(self, n, none):
        self.generic_visit(n)
        n.test = boolean(n.test)
        if isinstance(n.test, ast.UnaryOp) and isinstance(n.test.op, ast.Not) and n.orelse and none(n):
            n.test = n.test.operand
            n.body, n.orelse = n.orelse, n.body
        return n

    def visit_If(self, n):
        return self.branch(n, lambda n: not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)))

    def visit_IfExp(self, n):
        return self.branch(n, lambda n: True)

    def visit_While(self, n):
        self.generic_visit(n)
        n.test = boolean(n.test)
        return n

    def visit_Assert(self, n):
        self.generic_visit(n)
        n.test = boolean(n.test)
        return n


def counted(f):
    """c = 0; while c < n: ...; c += 1   ->   for c in range(n): ...   (where c is not used afterwards)"""
    for n in ast.walk(f):
        for k in ("body", "orelse", "finalbody"):
            b = getattr(n, k, None)
            if not isinstance(b, list):
                continue
            for i, w in enumerate(b):
                if not (isinstance(w, ast.While) and not w.orelse and isinstance(w.test, ast.Compare) and len(w.test.ops) == 1 and isinstance(w.test.ops[0], ast.Lt)
                        and isinstance(w.test.left, ast.Name) and len(w.body) > 1):
                    continue
                c, last, stop = w.test.left.id, w.body[-1], w.test.comparators[0]
                one = isinstance(last, ast.AugAssign) and isinstance(last.op, ast.Add) and isinstance(last.target, ast.Name) and last.target.id == c and \
                    isinstance(last.value, ast.Constant) and last.value.value == 1 or \
                    isinstance(last, ast.Assign) and len(last.targets) == 1 and isinstance(last.targets[0], ast.Name) and last.targets[0].id == c and \
                    ast.unparse(last.value).replace(" ", "") in (c + "+1", "1+" + c)
                init = [s for s in b[:i] if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == c for t in s.targets)]
                stored = {x.id for s in w.body[:-1] for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))}
                inner = [x for s in w.body for x in ast.walk(s)]
                if not one or not init or not (isinstance(init[-1].value, ast.Constant) and type(init[-1].value.value) is int and init[-1].value.value == 0) or c in stored or \
                        any(isinstance(x, ast.Name) and x.id in stored for x in ast.walk(stop)) or any(isinstance(x, ast.Continue) for x in inner):
                    continue
                inside = {id(x) for x in ast.walk(w)}
                if any(isinstance(x, ast.Name) and x.id == c and isinstance(x.ctx, ast.Load) and id(x) not in inside for x in ast.walk(f)):
                    continue
                rng = ast.Call(ast.Name("range", ast.Load()), [stop], [])
                b[i] = ast.copy_location(ast.For(ast.Name(c, ast.Store()), ast.copy_location(rng, w), w.body[:-1], []), w)


def parse(src, name):
    t = Norm().visit(ast.parse(src, name))
    for f in ast.walk(t):
        if isinstance(f, ast.FunctionDef):
            counted(f)
    return ast.fix_missing_locations(t)
