"""Loops over a literal list of names are read as the sequence of their passes.

`for key in ("a", "b"): if key in args: confs[key] = getattr(args, key)` says the same as one block per name;
every analysis sees the blocks.  A loop is only expanded when it runs over a literal tuple or list of at least one
element holding a literal string (directly, or in a literal tuple), has no break and does not assign its variables.
getattr/setattr with a literal name and no default are the attribute itself.
"""
import ast
import copy


def _lit(e):
    return isinstance(e, ast.Constant) and isinstance(e.value, str)


def _simple(e):
    return isinstance(e, (ast.Constant, ast.Name)) or isinstance(e, ast.Attribute) and _simple(e.value)


def _targets(t):
    if isinstance(t, ast.Name):
        return [t.id]
    if isinstance(t, (ast.Tuple, ast.List)) and all(isinstance(x, ast.Name) for x in t.elts):
        return [x.id for x in t.elts]


def _rows(it, n, single):
    if not isinstance(it, (ast.Tuple, ast.List)) or not it.elts or len(it.elts) > 40:
        return None
    rows = []
    for e in it.elts:
        if single:
            r = [e]
        elif isinstance(e, (ast.Tuple, ast.List)) and len(e.elts) == n:
            r = e.elts
        else:
            return None
        if not any(_lit(x) for x in r):
            return None
        rows.append(r)
    return rows


def _own(body):
    """Statements of a loop body, without nested functions; tells break/continue of this loop."""
    out = []
    todo = [(s, False) for s in body]
    while todo:
        s, inner = todo.pop()
        if isinstance(s, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            out.append((s, True))
            continue
        out.append((s, inner))
        deep = inner or isinstance(s, (ast.For, ast.While))
        todo += [(c, deep) for c in ast.iter_child_nodes(s)]
    return out


class _Sub(ast.NodeTransformer):
    def __init__(self, m):
        self.m = m

    def visit_Name(self, n):
        if n.id in self.m and isinstance(n.ctx, ast.Load):
            return ast.copy_location(copy.deepcopy(self.m[n.id]), n)
        return n


class _Get(ast.NodeTransformer):
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == "getattr" and len(n.args) == 2 and not n.keywords and \
                _lit(n.args[1]) and n.args[1].value.isidentifier():
            return ast.copy_location(ast.Attribute(n.args[0], n.args[1].value, ast.Load()), n)
        return n

    def visit_Expr(self, n):
        self.generic_visit(n)
        c = n.value
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == "setattr" and len(c.args) == 3 and \
                not c.keywords and _lit(c.args[1]) and c.args[1].value.isidentifier():
            return ast.copy_location(ast.Assign([ast.Attribute(c.args[0], c.args[1].value, ast.Store())], c.args[2]), n)
        return n


class _Unroll(ast.NodeTransformer):
    def visit_For(self, n):
        self.generic_visit(n)
        names = _targets(n.target)
        if names is None or n.orelse:
            return n
        rows = _rows(n.iter, len(names), isinstance(n.target, ast.Name))
        if rows is None:
            return n
        cont = False
        for s, inner in _own(n.body):
            if isinstance(s, ast.Break) and not inner:
                return n
            if isinstance(s, ast.Continue) and not inner:
                cont = True
            if isinstance(s, ast.Name) and isinstance(s.ctx, (ast.Store, ast.Del)) and s.id in names:
                return n
            if isinstance(s, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.Global, ast.Nonlocal)):
                return n
        out = []
        for r in rows:
            m, pre = {}, []
            for k, v in zip(names, r):
                pre.append(ast.Assign([ast.Name(k, ast.Store())], copy.deepcopy(v)))
                if _simple(v):
                    m[k] = v
            body = [_Sub(m).visit(copy.deepcopy(s)) for s in n.body]
            if cont:
                one = ast.For(ast.Name("_", ast.Store()), ast.Tuple([ast.Constant(0)], ast.Load()), body, [], None)
                body = [one]
            for s in pre + body:
                ast.copy_location(s, n) if not hasattr(s, "lineno") else None
                ast.fix_missing_locations(s)
            out += pre + body
        for s in pre:
            ast.copy_location(s, n)
        return [ast.fix_missing_locations(ast.copy_location(s, n) if not hasattr(s, "lineno") else s) for s in out]


def expand(tree):
    tree = _Unroll().visit(tree)
    tree = _Get().visit(tree)
    return ast.fix_missing_locations(tree)
