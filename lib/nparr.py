"""Element type, memory layout and rank of numpy arrays, inferred from their constructors.

info(term, f) -> set of (dtype, layout, rank, origin). dtype: canonical name or None (unknown);
layout: "C" contiguous, "N" certainly not contiguous for rank >= 2, "K" copied in the layout the caller's array has, "?" unknown; origin: text of the deciding construct."""
import pyx

CANON = {"double": "double", "float64": "double", "float": "double", "d": "double", "f8": "double", "float_": "double",
         "int64": "int64", "int": "int64", "i8": "int64", "intp": "int64", "int_": "int64", "long": "int64", "longlong": "int64",
         "intc": "int32", "int32": "int32", "i4": "int32", "i": "int32", "int16": "int16", "short": "int16",
         "uint32": "uint32", "uint64": "uint64", "uintp": "uint64", "uint": "uint64",
         "byte": "char", "int8": "char", "b": "char", "i1": "char", "uint8": "char", "bool": "char", "bool_": "char", "?": "char", "ubyte": "char",
         "complex128": "cdouble", "c16": "cdouble", "complex": "cdouble", "D": "cdouble", "cdouble": "cdouble", "complex_": "cdouble",
         "float32": "float32", "single": "float32", "f4": "float32", "f": "float32", "complex64": "cfloat", "c8": "cfloat", "csingle": "cfloat",
         "longdouble": "longdouble"}


def kw(t, name, pos=None):
    for k, v in t[3]:
        if k == name:
            return v
    if pos is not None and len(t[2]) > pos and not any(a[0] == "star" for a in t[2][:pos + 1]):
        return t[2][pos]
    return None


def dtype(t):
    """Canonical dtype named by a term, None if it cannot be told."""
    if t is None:
        return None
    if t[0] == "c" and isinstance(t[1], str):
        return CANON.get(t[1], "other:" + t[1])
    if t[0] == "builtin":
        return CANON.get(t[1])
    if t[0] == "ext" and t[1].startswith("numpy."):
        return CANON.get(t[1][6:])
    if t[0] == "call" and t[1] == ("ext", "numpy.dtype") and t[2]:
        return dtype(t[2][0])
    if t[0] == "op" and t[1] == "%" and t[2] == ("c", "c%d"):
        for x in pyx.subterms(t[3]):
            if x[0] == "call" and x[1] == ("ext", "numpy.dtype") and dtype(x) == "double":
                return "cdouble"
        return None
    return None


def rank_of_shape(t):
    if t is None:
        return None
    if t[0] in ("tuple", "list"):
        return None if any(x[0] == "star" for x in t[1]) else len(t[1])
    if t[0] in ("c",) and isinstance(t[1], int):
        return 1
    if t[0] == "call" and t[1] == ("builtin", "len"):
        return 1
    if t[0] == "op" and t[1] == "*" and t[2][0] not in ("tuple", "list") and all(rank_of_shape(x) == 1 for x in t[2:]):
        return 1
    return None


class Arr:
    def __init__(self, p):
        self.p, self.cache = p, {}

    def info(self, t, f, depth=0, seen=()):
        key = (t, f.qual)
        if key in self.cache:
            return self.cache[key]
        if depth > 9 or key in seen:
            return {(None, "?", None, "")}
        r = self._info(t, f, depth, seen + (key,))
        if f.module.name not in self.p._ownset and len({x[0] for x in r}) > 1:
            # which alternative of a library object applies depends on its options
            r = {(None, "?", None, "")}
        if len(r) > 8:
            r = {x for x in r if x[0] is not None} or {(None, "?", None, "")}
        if depth == 0:
            self.cache[key] = r
        return r

    def _info(self, t, f, depth, seen):
        U = {(None, "?", None, "")}
        I = lambda x, g=f: self.info(x, g, depth + 1, seen)
        k = t[0]
        if k in ("phi", "ite"):
            s = set()
            for x in pyx.alts(t):
                if x not in (("undef",), ("c", None)):
                    s |= I(x)
            return s or U
        if k == "c":
            return set() if t[1] is None else U
        if k == "call":
            c = t[1]
            n = c[1] if c[0] == "ext" else None
            if n and n.startswith("numpy."):
                n = n[6:]
                o = "np." + n
                if n in ("zeros", "ones", "empty", "full", "eye", "identity"):
                    d = kw(t, "dtype", {"full": 2, "eye": 3}.get(n, 1))
                    dt = dtype(d) if d is not None else ("double" if n != "full" else None)
                    ordr = kw(t, "order", {"full": 3, "eye": 4, "identity": None}.get(n, 2))
                    rk = rank_of_shape(t[2][0] if t[2] else kw(t, "shape")) if n in ("zeros", "ones", "empty", "full") else 2
                    return {(dt, "N" if ordr == ("c", "F") else "C", rk, o)}
                if n in ("zeros_like", "ones_like", "empty_like", "full_like"):
                    d = kw(t, "dtype")
                    return {(dtype(d) if d is not None else x[0], x[1], x[2], o) for x in I(t[2][0])} if t[2] else U
                if n == "arange":
                    d = kw(t, "dtype")
                    isint = all(a[0] == "c" and isinstance(a[1], int) or a[0] == "call" and a[1] == ("builtin", "len") for a in t[2])
                    return {(dtype(d) if d is not None else ("int64" if isint else None), "C", 1, o)}
                if n in ("array", "asarray", "ascontiguousarray", "require", "asfortranarray"):
                    d = kw(t, "dtype", 1)
                    ordr = kw(t, "order", 2 if n == "asarray" else None)
                    inner = I(t[2][0]) if t[2] else U
                    s = set()
                    for x in inner or U:
                        dt = dtype(d) if d is not None else x[0]
                        if n == "ascontiguousarray" or ordr == ("c", "C"):
                            lay = "C"
                        elif n == "asfortranarray" or ordr == ("c", "F"):
                            lay = "N"
                        else:
                            lay = x[1]
                            if lay == "?" and any(a[0] == "param" for a in pyx.alts(t[2][0])):
                                lay = "K"
                        s.add((dt, lay, x[2], "%s(dtype=%s)" % (o, dt) if d is not None else o))
                    return s
                if n in ("transpose", "swapaxes", "moveaxis", "rollaxis") and t[2]:
                    return {(x[0], "N" if x[2] != 1 else "C", x[2], o) for x in I(t[2][0])} or U
                if n in ("dot", "matmul", "einsum", "tensordot", "linalg.inv", "concatenate", "vstack", "hstack", "ravel", "sqrt", "rint", "abs",
                         "exp", "unique", "cumsum", "multiply", "linspace", "cross", "add", "tile", "repeat"):
                    ds = [self.one(I(a)) for a in t[2] if a[0] not in ("c", "tuple", "list")]
                    d = kw(t, "dtype")
                    dt = dtype(d) if d is not None else (ds[0] if ds and all(x == ds[0] for x in ds) else None)
                    if n in ("sqrt", "exp", "linalg.inv", "linspace") and dt in ("int64", None):
                        dt = "double" if n in ("linalg.inv", "linspace") and d is None and dt != "cdouble" and (ds or n == "linspace") and ds[:1] != [None] else None
                    if n == "rint" and dt == "int64":
                        dt = "double"
                    return {(dt, "C" if n in ("dot", "matmul", "linalg.inv", "linspace", "ravel") else "?", 1 if n == "linspace" else None, o)}
                if n in ("where", "nonzero", "argsort", "searchsorted", "flatnonzero", "argwhere"):
                    return {("int64", "?", None, o)} if n != "where" or len(t[2]) == 1 else U
                return U
            if c[0] == "attr":
                m = c[2]
                if m in ("copy", "flatten", "ravel", "astype", "reshape", "view", "transpose", "squeeze", "swapaxes"):
                    base = I(c[1])
                    s = set()
                    for x in base or U:
                        if m == "astype":
                            d = kw(t, "dtype", 0)
                            ordr = kw(t, "order", 1)
                            s.add((dtype(d), "C" if ordr == ("c", "C") else x[1], x[2], "astype"))
                        elif m == "copy":
                            o = kw(t, "order", 0)
                            s.add((x[0], "C" if o in (None, ("c", "C")) else x[1], x[2], x[3]))
                        elif m in ("flatten", "ravel"):
                            s.add((x[0], "C", 1, x[3]))
                        elif m == "view":
                            d = kw(t, "dtype", 0)
                            s.add((dtype(d) if d is not None else x[0], x[1], x[2], "view"))
                        elif m in ("transpose", "swapaxes"):
                            s.add((x[0], "N" if x[2] != 1 else "C", x[2], m))
                        elif m == "reshape":
                            rk = len(t[2]) if t[2] and t[2][0][0] not in ("tuple", "list") else rank_of_shape(t[2][0]) if t[2] else None
                            s.add((x[0], "C" if x[1] in ("C", "N") else "?", rk, x[3]))
                        else:
                            s.add((x[0], x[1], None, x[3]))
                    tg, full = self.p.targets(c, f)
                    if not tg:
                        return s
            tg, full = self.p.targets(c, f)
            s = set() if (full and tg) else set(U)
            for g, ctor in tg:
                if ctor:
                    return U
                for e in self.p.returns(g):
                    if e.t != ("c", None):
                        s |= self.subst(e.t, g, t, f, depth, seen)
            return s or U
        if k == "item" and t[2][0] == "call":
            tg, full = self.p.targets(t[2][1], f)
            s = set() if (full and tg) else set(U)
            for g, ctor in tg:
                for e in self.p.returns(g):
                    for x in pyx.alts(e.t):
                        if x[0] == "tuple" and t[1] < len(x[1]):
                            s |= self.subst(x[1][t[1]], g, t[2], f, depth, seen)
                        elif x != ("c", None):
                            s |= U
            return s or U
        if k == "attr":
            if t[2] == "T":
                return {(x[0], "N" if x[2] != 1 else "C", x[2], ".T") for x in I(t[1])} or {(None, "N", None, ".T")}
            if t[2] in ("real", "imag"):
                return {("double" if x[0] in ("cdouble", "double") else None, "N" if x[0] == "cdouble" else x[1], x[2], "." + t[2]) for x in I(t[1])} or U
            s, any_ = set(), False
            for bt in self.p.typeof(t[1], f):
                if bt[0] != "inst":
                    if bt[0] != "none":
                        s |= U
                    continue
                c = self.p.classes[bt[1]]
                m = self.p.member(c, t[2])
                if m and m[0] == "property":
                    for e in self.p.returns(m[1]):
                        if e.t != ("c", None):
                            s |= self.info(e.t, m[1], depth + 1, seen)
                    continue
                st = [e for e in self.p.attr_stores(c).get(t[2], [])]
                if not st:
                    s |= U
                for e in st:
                    if e.t[2] not in (("c", None), ("undef",)):
                        s |= self.info(e.t[2], e.fn, depth + 1, seen)
            return s or U
        if k == "sub":
            i = t[2]
            idx = list(i[1]) if i[0] == "tuple" else [i]
            if any(x[0] == "c" and isinstance(x[1], str) for x in idx):
                return U
            s = set()
            for x in I(t[1]) or U:
                lay, rk = x[1], x[2]
                kinds = []
                for a in idx:
                    if a[0] == "slice":
                        full = a[1] == ("c", None) and a[2] == ("c", None)
                        step = a[3] != ("c", None) and a[3] != ("c", 1)
                        kinds.append("step" if step else "full" if full else "part")
                    elif a[0] == "c" and isinstance(a[1], int) or a[0] in ("idx", "rng"):
                        kinds.append("int")
                    elif a[0] == "c" and (a[1] is None or a[1] is Ellipsis):
                        kinds.append("other")
                    else:
                        kinds.append("int?")     # an integer, or an index array (which copies)
                if "other" in kinds:
                    lay2, rk2 = "?", None
                else:
                    nint = sum(q == "int" for q in kinds)
                    rk2 = rk - nint if rk is not None and "int?" not in kinds else None
                    while kinds and kinds[-1] == "full":
                        kinds.pop()
                    lead = 0
                    while lead < len(kinds) and kinds[lead].startswith("int"):
                        lead += 1
                    rest = kinds[lead:]
                    if "int?" in kinds and not rest:
                        lay2 = lay
                    elif "int?" in kinds:
                        lay2 = "?"
                    elif not rest:
                        lay2 = lay
                    elif rest == ["part"]:
                        lay2 = lay
                    elif rest[0] in ("full", "part") and "int" in rest:
                        lay2 = "N1" if lay in ("C", "?") else lay
                    elif "step" in rest:
                        lay2 = "N1" if idx[0][0] != "slice" or idx[0][3] != ("c", -1) else "N1"
                    else:
                        lay2 = "?"
                    if lay2 == "N1":
                        lay2 = "N"
                s.add((x[0], lay2, rk2, x[3] + "[...]"))
            return s
        if k == "op" and t[1] in ("+", "-", "*", "/", "//", "%", "**"):
            if len(t) < 4:
                return U
            a, b = t[2], t[3]
            if a[0] in ("list", "tuple", "c") and b[0] in ("list", "tuple", "c"):
                return U
            ia = self.one(I(a)) if a[0] != "c" else "c"
            ib = self.one(I(b)) if b[0] != "c" else "c"
            ds = [x for x in (ia, ib) if x != "c"]
            if None in ds or not ds:
                return U
            if "cdouble" in ds:
                dt = "cdouble"
            elif "double" in ds or t[1] == "/":
                dt = "double"
            elif all(x == "int64" for x in ds):
                fl = any(x[0] == "c" and isinstance(x[1], float) for x in (a, b))
                dt = "double" if fl else "int64"
            else:
                dt = None
            return {(dt, "?", None, "arithmetic")}
        if k == "param":
            if t[1] in f.params or t[1] in f.kwonly:
                s = set()
                for e, d, exact in self.p.call_sites().get(f.qual, []):
                    if t[1] in d:
                        s |= self.info(d[t[1]], e.fn, depth + 2, seen)
                    else:
                        s |= set(U) if not exact else set()
                if not f.name.startswith("_"):
                    s |= U
                return s or U
            return U
        if k in ("list", "tuple", "comp"):
            return {(None, "C", None, k)}
        return U

    def subst(self, t, g, call, f, depth, seen):
        """info of a returned term, parameters resolved at this call when it is a bare parameter."""
        if t[0] == "param" and t[1] in g.params:
            d, errs, exact = self.p.bind(g, call[2], call[3], self.p.is_unbound(call[1], f, g))
            if t[1] in d:
                return self.info(d[t[1]], f, depth + 1, seen)
        return self.info(t, g, depth + 1, seen)

    @staticmethod
    def one(s):
        ds = {x[0] for x in s}
        return ds.pop() if len(ds) == 1 else None
