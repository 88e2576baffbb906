"""In-place changes of values that belong to the caller: alias terms, mutating operations, summaries over calls."""
import ast, re
import pyx, kern

VIEW_METH = {"reshape", "ravel", "view", "transpose", "squeeze", "swapaxes", "T", "diagonal", "values", "items", "get", "setdefault"}
VIEW_EXT = {"numpy.asarray", "numpy.ravel", "numpy.reshape", "numpy.transpose", "numpy.squeeze", "numpy.swapaxes", "numpy.atleast_1d",
            "numpy.atleast_2d", "numpy.ascontiguousarray", "numpy.diagonal", "numpy.asanyarray"}
SHALLOW_METH = {"copy"}
SHALLOW_B = {"list", "dict", "tuple", "sorted", "reversed", "zip", "enumerate"}
MUT_METH = {"append", "extend", "update", "pop", "sort", "insert", "remove", "clear", "setdefault", "fill", "popitem", "reverse", "put",
            "itemset", "resize", "partition", "setflags", "__setitem__"}
MUT_EXT0 = {"numpy.fill_diagonal", "numpy.put", "numpy.copyto", "numpy.place", "numpy.putmask", "random.shuffle", "numpy.random.shuffle", "numpy.add.at"}


KOUT = {}    # kernel -> positions of its output arguments


def alias(t, depth=0):
    """Yield (root term, level) the value of t may share storage with.
    level 0: the very object or a view of its buffer / a member of it;
    level k>0: a shallow copy - only what lies k levels below is shared."""
    if depth > 12:
        return
    k = t[0]
    if k in ("param", "attr", "self"):
        yield t, 0
        if k == "attr":
            if t[2] == "T":
                yield from alias(t[1], depth + 1)
    elif k == "sub":
        basic = indexes_by_copy(t[2])
        for r, l in alias(t[1], depth + 1):
            if not basic:
                yield r, max(l - 1, 0)
    elif k in ("elem", "val"):
        for r, l in alias(t[1], depth + 1):
            yield r, max(l - 1, 0)
    elif k == "item":
        for r, l in alias(t[2], depth + 1):
            yield r, max(l - 1, 0)
    elif k in ("phi", "ite"):
        for x in pyx.alts(t):
            yield from alias(x, depth + 1)
    elif k == "call":
        c = t[1]
        if c[0] == "ext" and c[1] in VIEW_EXT and t[2]:
            kw = dict(t[3])
            yield from alias(t[2][0], depth + 1)
        elif c[0] == "ext" and c[1] == "numpy.array" and t[2] and dict(t[3]).get("copy") == ("c", False):
            yield from alias(t[2][0], depth + 1)
        elif c[0] == "ext" and c[1] == "copy.copy" and t[2]:
            for r, l in alias(t[2][0], depth + 1):
                yield r, l + 1
        elif c[0] == "builtin" and c[1] in SHALLOW_B and t[2]:
            for a in t[2]:
                for r, l in alias(a, depth + 1):
                    yield r, l + 1
        elif c[0] == "attr" and c[2] in VIEW_METH:
            yield from alias(c[1], depth + 1)
        elif c[0] == "attr" and c[2] in SHALLOW_METH:
            for r, l in alias(c[1], depth + 1):
                yield r, l + 1
    elif k in ("list", "tuple", "set"):
        for x in t[1]:
            for r, l in alias(x, depth + 1):
                yield r, l + 1
    elif k == "dict":
        for kk, v in t[1]:
            for r, l in alias(v, depth + 1):
                yield r, l + 1


def indexes_by_copy(i):
    """Advanced indexing with a comparison, list or array-like index gives a copy."""
    if i[0] == "tuple":
        return any(indexes_by_copy(x) for x in i[1])
    return i[0] in ("list", "comp") or (i[0] == "op" and i[1] in ("==", "!=", "<", ">", "<=", ">=", "&", "|", "~")) or \
        (i[0] == "call" and i[1][0] == "ext" and i[1][1] in ("numpy.where", "numpy.nonzero", "numpy.argsort", "numpy.arange"))


INVOLUTIONS = {"transpose_compact_fc3"}     # kernels that swap elements in place: applied twice they leave what was there


def undone(p, f):
    """Calls of self-inverse kernels that another call with the same arguments under the same conditions takes back
    (returns ids of the events)."""
    out = set()
    open_ = {}
    for e in p.events(f):
        kk = kern.kernel_of(e.t[1]) if e.kind == "call" and e.t[1][0] == "ext" else None
        if kk is None or kk.name not in INVOLUTIONS:
            continue
        key = (e.t, e.conds, e.loops)
        if key in open_:
            out |= {id(open_.pop(key)), id(e)}
        else:
            open_[key] = e
    return out


def mutations(p, f, summ, outputs=True):
    """Yield (kind, target term, node, conds, note) of in-place changes in f."""
    pairs = undone(p, f)
    for e in p.events(f):
        if id(e) in pairs:
            continue
        if e.kind in ("store_sub", "aug_sub"):
            yield e.kind, e.t[0], e
        elif e.kind in ("aug_name",):
            yield e.kind, e.extra if e.extra else e.t[1], e
        elif e.kind == "aug_attr":
            yield e.kind, ("attr", e.t[0], e.t[1]), e
        elif e.kind == "delete":
            if isinstance(e.t, tuple) and e.t and e.t[0] == "sub":
                yield "delete", e.t[1], e
        elif e.kind == "call":
            c, args, kw = e.t[1], e.t[2], dict(e.t[3])
            if c[0] == "attr" and c[2] in MUT_METH and not p.targets(c, f)[0]:
                yield "method " + c[2], c[1], e
            if c[0] == "ext" and c[1] in MUT_EXT0 and args:
                yield c[1], args[0], e
            if c[0] == "ext" and "out" in kw:
                yield c[1] + " out", kw["out"], e
            kk = kern.kernel_of(c) if c[0] == "ext" else None
            if kk is not None and not any(a[0] == "star" for a in args):
                for i in sorted(KOUT.get((kk.mod, kk.name), ())):
                    if i < len(args):
                        yield "kernel " + kk.name, args[i], e
            if kk is None:
                for g, ctor in p.targets(c, f)[0]:
                    s = summ.get(g.qual)
                    if not s:
                        continue
                    d, errs, exact = p.bind(g, args, e.t[3], p.is_unbound(c, f, g))
                    for par, how in s.items():
                        if par in d:
                            yield "call " + g.short, d[par], e


def arrayish(t, f, p):
    """Evidence that a term holds an array or container rather than a scalar."""
    if t[0] == "param":
        g = f
        while g and t[1] not in g.ann:
            g = g.outer
        a = g.ann.get(t[1]) if g else None
        if a is not None:
            s = ast.unparse(a)
            if re.search(r"ndarray|ArrayLike|Sequence|list|dict|List|Dict|NDArray", s):
                return True
            if re.search(r"\b(float|int|bool|str)\b", s):
                return False
        return used_as_array(("param", t[1]), f, p)
    if t[0] == "attr":
        return used_as_array(t, f, p)
    if t[0] in ("phi", "ite"):
        return any(arrayish(x, f, p) for x in pyx.alts(t) if x[0] not in ("c", "undef"))
    if t[0] == "call":
        return t[1][0] == "ext" and t[1][1].startswith("numpy.") or (t[1][0] == "attr" and t[1][2] in VIEW_METH)
    if t[0] == "sub":
        if t[2][0] == "c" and isinstance(t[2][1], str):
            return t[2][1] in array_keys(p)
        return any(x[0] == "slice" for x in pyx.subterms(t[2]))
    return False


_keys = {}


def array_keys(p):
    """Dictionary keys under which the package keeps arrays (evidence: a numpy array is stored, or the value is indexed or measured)."""
    if id(p) in _keys:
        return _keys[id(p)]
    out = set()

    def iskey(t):
        return t[0] == "sub" and t[2][0] == "c" and isinstance(t[2][1], str)
    for f in p.own_funcs():
        for e in p.events(f):
            if e.kind == "store_sub" and len(e.t) > 2 and e.t[1][0] == "c" and isinstance(e.t[1][1], str):
                if any(v[0] == "call" and v[1][0] == "ext" and v[1][1] in ("numpy.array", "numpy.zeros", "numpy.asarray", "numpy.dot") for v in pyx.alts(e.t[2])):
                    out.add(e.t[1][1])
            if e.kind == "call" and e.t[1] == ("ext", "numpy.array") and e.t[2] and iskey(e.t[2][0]):
                out.add(e.t[2][0][2][1])
            if e.kind == "load_attr" and e.t[2] == "shape" and iskey(e.t[1]):
                out.add(e.t[1][2][1])
    _keys[id(p)] = out
    return out


def used_as_array(t, f, p):
    for e in p.events(f):
        if e.kind == "load_sub" and e.extra and e.extra[0] == t:
            return True
        if e.kind == "call":
            if e.t[1] == ("builtin", "len") and e.t[2] and e.t[2][0] == t:
                return True
            if e.t[1][0] == "ext" and e.t[1][1] in ("numpy.dot", "numpy.linalg.norm", "numpy.array", "numpy.asarray", "numpy.sum", "numpy.einsum") and t in e.t[2]:
                return True
            if e.t[1][0] == "attr" and e.t[1][1] == t and e.t[1][2] in ("sum", "reshape", "copy", "shape", "T", "ravel", "any", "all", "append"):
                return True
        if e.kind == "load_attr" and e.t[1] == t and e.t[2] in ("shape", "dtype", "T", "flags", "ndim"):
            return True
    return any(t in l for e in p.events(f) for l in [tuple(x for x, _ in e.loops)])


def summaries(p, funcs, attrs=None):
    """func -> {param: (how, event)} changed in place (fixpoint over the call graph)."""
    summ = {}
    evs = {}
    for rnd in range(6):
        changed = False
        for f in funcs:
            cur = summ.setdefault(f.qual, {})
            for how, t, e in mutations(p, f, summ):
                if how in ("aug_name", "aug_attr"):
                    t = e.t[2] if how == "aug_name" else t
                    if not arrayish(t, f, p):
                        continue
                for r, l in alias(t):
                    if l == 0 and r[0] == "param" and r[1] in f.params + f.kwonly and r[1] not in cur:
                        cur[r[1]] = (how, e)
                        changed = True
        if not changed:
            break
    return summ
