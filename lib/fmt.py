"""Printf-style and str.format formatting: number of values against number of conversions."""
import ast
import re
import string

CONV = re.compile(r"%(?:\((\w+)\))?[-+ #0]*(\*|\d+)?(?:\.(\*|\d+))?[hlL]?([a-zA-Z%])")


def fold(n):
    """Constant string an expression makes, or None."""
    if isinstance(n, ast.Constant) and isinstance(n.value, str):
        return n.value
    if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Add):
        a, b = fold(n.left), fold(n.right)
        return None if a is None or b is None else a + b
    if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mult):
        for x, y in ((n.left, n.right), (n.right, n.left)):
            a = fold(x)
            if a is not None and isinstance(y, ast.Constant) and isinstance(y.value, int):
                return a * y.value
    return None


def width(n):
    """(number of values known to be given, expressions that give an unknown number), or None."""
    if isinstance(n, ast.Tuple):
        return sum(1 for x in n.elts if not isinstance(x, ast.Starred)), [x.value for x in n.elts if isinstance(x, ast.Starred)]
    if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Add):
        a, b = width(n.left), width(n.right)
        return None if a is None or b is None else (a[0] + b[0], a[1] + b[1])
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "tuple" and len(n.args) == 1:
        return 0, [n.args[0]]
    return None


def mistakes(node):
    """Yields (expression, what is wrong or None) for each formatting in the function."""
    widths = {}
    for n in ast.walk(node):
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod):
            s = fold(n.left)
            if s is None:
                continue
            cs = [m for m in CONV.finditer(s) if m.group(4) != "%"]
            if any(m.group(1) for m in cs):
                continue
            c = len(cs) + sum((m.group(2) == "*") + (m.group(3) == "*") for m in cs)
            w = width(n.right)
            if w is None and isinstance(n.right, (ast.Name, ast.Attribute, ast.Subscript, ast.Call, ast.BinOp)):
                w = (0, [n.right]) if c != 1 else (1, [])
                if c == 1:
                    continue
            if w is None:
                w = (1, [])
            if not w[1]:
                yield n, None if c == w[0] else "%d values are given for %d conversions" % (w[0], c)
            elif c - w[0] < len(w[1]):
                yield n, "at least %d values are given for %d conversions" % (w[0] + len(w[1]), c)
            else:
                k = tuple(ast.unparse(x) for x in w[1])
                o = widths.setdefault(k, (c - w[0], n))
                yield n, None if o[0] == c - w[0] else "%s is formatted with %d conversions here, and with %d in line %d" % (", ".join(k), c - w[0], o[0], o[1].lineno)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "format":
            s = fold(n.func.value)
            if s is None or any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
                continue
            try:
                fields = [x[1] for x in string.Formatter().parse(s) if x[1] is not None]
            except ValueError as e:
                yield n, "the format is malformed: %s" % e
                continue
            names = {k.arg for k in n.keywords}
            auto, bad = 0, None
            for x in fields:
                h = re.split(r"[.\[]", x)[0]
                if h == "":
                    auto += 1
                elif h.isdigit():
                    bad = bad or (int(h) >= len(n.args) and "value %s is not given" % h)
                elif h not in names:
                    bad = "value %s is not given" % h
            if auto > len(n.args):
                bad = "%d values are given for %d fields" % (len(n.args), auto)
            yield n, bad or None
