"""P05: element type, memory layout, arity and output storage of kernel arguments (array inference against the wrappers' casts).

Reports arguments whose concrete numpy constructor gives another element type or a non-contiguous layout than the kernel reads, wrong argument counts and kinds, and outputs handed over as temporaries; arrays of unknown origin are undecided."""
import ast
import pyx, kern, nparr, cfront
from common import Broken

FRESH = {"array", "asarray", "ascontiguousarray", "copy", "dot", "matmul", "transpose", "concatenate", "where"}


def outputs(k, protos):
    """Array formals whose buffer the wrapper passes on through a pointer to non-const."""
    loc = {}
    out = set()
    for n in k.fn.body.walk():
        if n.k == "BinaryOperator" and n.op == "=" or n.k == "VarDecl" and n.kids:
            if n.k == "VarDecl":
                lhs, rhs = n.name, n.kids[-1]
            else:
                l = cfront.strip(n.kids[0])
                lhs, rhs = (l.name if l is not None and l.k == "DeclRefExpr" else None), n.kids[1]
            has_data = any(x.k == "MemberExpr" and x.name == "data" for x in rhs.walk()) or \
                any(x.k == "CallExpr" and (cfront.callee(x) or "").startswith("convert_to") for x in rhs.walk())
            src = [x.name for x in rhs.walk() if x.k == "DeclRefExpr" and x.name in k.formals]
            if lhs and has_data and src:
                loc[lhs] = src[0]
    for n in k.fn.body.walk():
        if n.k == "CallExpr":
            c = cfront.callee(n)
            g = protos.get(c)
            if g is None:
                continue
            for pr, a in zip(g.params, cfront.args(n)):
                a = cfront.strip(a)
                nm = a.name if a is not None and a.k == "DeclRefExpr" else None
                if nm in loc and ("*" in pr[1] or "[" in pr[1]) and "const" not in pr[1].split("*")[0]:
                    out.add(loc[nm])
    return out


def run(R):
    R.explanation = ("At every call of a compiled kernel the element type, layout and rank of each array actual are inferred from "
                     "the numpy constructors it can come from (through locals, attributes, properties, returned values and call "
                     "sites) and compared with the type the nanobind wrapper reinterprets the buffer as; argument count and "
                     "kind are compared with the wrapper's formals; output arguments must be storage that outlives the call.")
    R.assumptions = ["numpy default dtypes of LP64 platforms", "arrays without a constructor in reach are undecided"]
    p = pyx.project()
    A = nparr.Arr(p)
    ks = kern.kernels()
    protos = {f.name: f for f in cfront.load("lapacke").funcs.values()}
    for t in cfront.load_wrappers(lapacke=True).values():
        protos.update({n: f for n, f in t.funcs.items()})
    outs = {}
    for key, k in ks.items():
        outs[key] = outputs(k, protos)
        R.count("kernel outputs", len(outs[key]))
        for fm in k.formals:
            R.count("kernel array formals", 1 if fm in k.elem else 0)
            if len(k.elem.get(fm, ())) > 1:
                R.report("wrapper-cast", "c:" + k.fn.name, fm, "one buffer is read as %s" % sorted(k.elem[fm]))
    mods = {k.mod for k in ks.values()}
    for f in p.own_funcs():
        for e in p.events(f):
            if e.kind != "call" or e.t[1][0] != "ext":
                continue
            k = kern.kernel_of(e.t[1])
            if k is None:
                if e.t[1][1].rpartition(".")[0] in mods:
                    R.report("unknown-kernel", "%s:%s" % (f.file, f.short), e.t[1][1].split(".")[-1], "no such kernel entry point", e.line)
                continue
            R.count("kernel calls")
            call(R, p, A, f, e, k, outs[(k.mod, k.name)])
    R.require("kernel calls", 30)
    R.require("kernel outputs", 25)
    R.require("array arguments", 200)
    R.require("array arguments decided", 120)


def call(R, p, A, f, e, k, outs):
    where = "%s:%s" % (f.file, f.short)
    if any(a[0] == "star" for a in e.t[2]) or any(n is None for n, v in e.t[3]):
        R.undecided.append("%s star call of %s" % (where, k.name))
        return
    n = len(e.t[2]) + len(e.t[3])
    if n != len(k.formals):
        R.report("arity", where, k.name, "%d arguments given, the kernel declares %d" % (n, len(k.formals)), e.line)
        return
    for i, (fm, t) in enumerate(zip(k.formals, e.t[2])):
        node = e.node.args[i]
        isarr = k.array[i]
        inf = A.info(t, f)
        if not isarr:
            R.count("scalar arguments")
            for x in inf:
                if x[0] is not None and x[2] not in (None, 0) and is_array_term(t):
                    R.report("kind", where, "%s.%s" % (k.name, fm), "an array (%s) is passed for a scalar" % x[3], e.line)
            if "double" not in k.ctype[i] and "char" not in k.ctype[i]:
                for a in pyx.alts(t):
                    if a[0] == "c" and isinstance(a[1], (float, str)) or a[0] == "op" and a[1] == "/":
                        R.report("kind", where, "%s.%s" % (k.name, fm), "%s is passed for an integer" % pyx.show(a), e.line)
            continue
        R.count("array arguments")
        want = k.elem.get(fm)
        if not want:
            continue
        want = next(iter(want))
        for a in pyx.alts(t):
            if a[0] == "c" and isinstance(a[1], (int, float, str, bool)) and a[1] is not None:
                R.report("kind", where, "%s.%s" % (k.name, fm), "%r is passed for an array" % (a[1],), e.line)
            if a[0] in ("list", "tuple", "dict", "comp"):
                R.report("kind", where, "%s.%s" % (k.name, fm), "a Python %s is passed for an array" % a[0], e.line)
        known = False
        for dt, lay, rk, org in inf:
            if dt is not None:
                known = True
                if dt != want:
                    R.report("dtype", where, "%s.%s" % (k.name, fm), "array of %s (%s) is read as %s" % (dt, org, want), e.line)
            if lay == "N" and rk != 1:
                R.report("layout", where, "%s.%s" % (k.name, fm), "array is not C-contiguous (%s)" % org, e.line)
            if lay == "K" and rk != 1 and several_axes(k, fm, t, f, p):
                R.report("layout", where, "%s.%s" % (k.name, fm), "array is copied in whatever layout the caller's array has (%s)" % org, e.line)
        R.count("array arguments decided", 1 if known else 0)
        if not known:
            R.undecided.append("%s %s.%s" % (where, k.name, fm))
        if fm in outs:
            R.count("output arguments")
            if temporary(node, t, f, e, p):
                R.report("temporary-output", where, "%s.%s" % (k.name, fm),
                         "the kernel writes into a temporary that is lost after the call: %s" % ast.unparse(node)[:80], e.line)


def several_axes(k, fm, t, f, p):
    """Whether the array is known to have several axes: by the wrapper, or by what the caller reads of it."""
    for n in k.fn.body.walk():
        if n.k == "CXXMemberCallExpr" and any(y.k == "MemberExpr" and y.name == "shape" for y in n.kids[0].walk()) and any(
                y.k == "DeclRefExpr" and y.name == fm for y in n.kids[0].walk()):
            ix = [y.val for a in n.kids[1:] for y in a.walk() if y.k == "IntegerLiteral"]
            if any(str(i) not in ("0", "None") for i in ix):
                return True
        if n.k in ("CStyleCastExpr", "CXXReinterpretCastExpr") and "(*)[" in n.t and kern._is_data(n, fm):
            return True
    mine = set(pyx.alts(t))
    for e in p.events(f):
        if e.kind == "load_sub" and e.extra and e.extra[1][0] == "c" and e.extra[1][1] not in (0, None):
            b = e.extra[0]
            if b[0] == "attr" and b[2] == "shape" and mine & set(pyx.alts(b[1])):
                return True
    return False


def is_array_term(t):
    return any(a[0] == "call" and a[1][0] == "ext" and a[1][1].startswith("numpy.") for a in pyx.alts(t))


def fresh(t):
    if t[0] == "call":
        c = t[1]
        if c[0] == "ext" and c[1].startswith("numpy."):
            return True
        if c[0] == "attr" and c[2] in ("copy", "astype", "flatten", "transpose"):
            return True
    return t[0] == "op" and t[1] in ("+", "-", "*", "/", "@")


def temporary(node, t, f, e, p):
    if isinstance(node, (ast.Call, ast.BinOp)):
        return fresh(t)
    if isinstance(node, ast.Name):
        if not all(fresh(a) for a in pyx.alts(t)):
            return False
        # the local must be read again: after the call, or anywhere when an alias exists
        nm = node.id
        uses = [n for n in ast.walk(f.node) if isinstance(n, ast.Name) and n.id == nm and isinstance(n.ctx, ast.Load) and n is not node]
        inside = {id(x) for x in ast.walk(e.node)}
        uses = [u for u in uses if id(u) not in inside]
        if f.nested:
            return False
        loops = [l for l in ast.walk(f.node) if isinstance(l, (ast.For, ast.While)) and l.lineno <= e.line <= l.end_lineno]
        end = e.node.end_lineno
        for u in uses:
            if u.lineno > end or any(l.lineno <= u.lineno <= l.end_lineno for l in loops):
                return False
            # an alias taken before the call keeps the storage reachable
            par = stmt_of(f.node, u)
            if par is not None and isinstance(par, ast.Assign) and (par.value is u or not isinstance(par.targets[0], ast.Name)):
                return False
        return True
    return False


def stmt_of(fn, node):
    best = None
    for s in ast.walk(fn):
        if isinstance(s, ast.stmt) and s.lineno <= node.lineno <= s.end_lineno and any(x is node for x in ast.walk(s)):
            if best is None or s.lineno >= best.lineno:
                best = s
    return best
