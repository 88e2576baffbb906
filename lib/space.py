"""What the positions and the elements of an array stand for.

Spaces: BZ, GR (the two grid-index conventions), IR (position in a list of grid points), SIGMA, TEMP, FPT, BAND, BAND0
(position in the list of chosen bands), TRIP, ROT.  A value is (axes, closed, el): for each axis the set of spaces its
positions belong to (None unknown), whether these are all axes, and the set of spaces integer elements belong to (None
unknown).  Values are inferred from allocations (numpy.zeros((len(sigmas), ...)), the conversion tables of the grid, and
what enumerate/range run over, through locals, attributes, returned values and call sites.  Alternatives that belong to
the other side of a self.<flag> condition in force are left out."""
import ast
import pyx, kern
from nparr import kw

AXIS = {"sigmas": "SIGMA", "temperatures": "TEMP", "temps": "TEMP", "frequency_points": "FPT", "band_indices": "BAND0",
        "grid_points": "IR", "triplets_at_q": "TRIP", "weights_at_q": "TRIP", "ir_grid_points": "IR", "point_operations": "ROT",
        "rotations_cartesian": "ROT", "rotations": "ROT", "ir_grid_weights": "IR", "grid_weights": "IR"}
FN = {"get_grid_point_from_address": "GR", "get_grid_point_from_address_py": "GR", "get_grid_points_by_rotations": "BZ",
      "_get_grid_points_by_bz_rotations_py": "BZ"}
U = None                      # unknown value
SCALAR = ((), True, None)
KEEP = ("array", "asarray", "ascontiguousarray", "copy", "sqrt", "exp", "abs", "absolute", "rint", "sinh", "tanh", "conj", "square", "sort")
LIKE = ("zeros_like", "ones_like", "empty_like", "full_like")
# element spaces of kernel arguments: (kernel, formal) -> space;   first axis likewise
KEL = {"py_triplets": "BZ", "py_map_triplets": "GR", "py_triplets_map": "GR", "py_map_q": "GR", "py_rotated_grid_points": "GR",
       "py_grid_mapping_table": "GR", "py_bzg2grg": "GR", "fixed_grid_number": "GR", "bz_grid_index": "BZ",
       ("BZ_triplets_at_q", "grid_point"): "BZ", ("phonons_at_gridpoints", "py_grid_points"): "BZ",
       ("isotope_strength", "grid_point"): "BZ", ("thm_isotope_strength", "grid_point"): "BZ",
       ("isotope_strength", "py_ir_grid_points"): "BZ", ("thm_isotope_strength", "py_ir_grid_points"): "BZ",
       ("integration_weights_at_grid_points", "py_grid_points"): "BZ", ("neighboring_grid_points", "py_grid_points"): "BZ",
       ("neighboring_grid_points", "py_relative_grid_points"): "BZ",
       ("expand_collision_matrix", "py_ir_grid_points"): "GR", ("expand_collision_matrix", "py_rot_grid_points"): "GR"}
KAX = {"py_frequencies": "BZ", "py_frequencies1": "BZ", "py_frequencies2": "BZ", "py_eigenvectors": "BZ", "py_phonon_done": "BZ",
       "py_bz_grid_addresses": "BZ", "py_grid_address": "BZ", "py_bz_grid_address": "BZ", "py_map_triplets": "GR",
       "py_triplets_map": "GR", "py_map_q": "GR", "py_triplets": "TRIP", "py_triplet_weights": "TRIP", "py_temperatures": "TEMP",
       "py_gp2irgp_map": "BZ", "py_bzg2grg": "BZ", "py_grid_mapping_table": "GR",
       ("integration_weights_at_grid_points", "py_frequencies"): None}


def kfact(tab, k, fm):
    return tab[(k.name, fm)] if (k.name, fm) in tab else tab.get(fm)


def S(*a):
    return frozenset(a)


def join(a, b):
    if a is U or b is U:
        return U
    n = min(len(a[0]), len(b[0]))
    ax = tuple(None if x is None or y is None else x | y for x, y in zip(a[0][:n], b[0][:n]))
    closed = a[1] and b[1] and len(a[0]) == len(b[0])
    return ax, closed, None if a[2] is None or b[2] is None else a[2] | b[2]


def clash(a, b):
    return a is not None and b is not None and a and b and not a & b


def drop(v, k=0):
    if v is U:
        return U
    if k < 0:
        if not v[1] or len(v[0]) < -k:
            return U
        k += len(v[0])
    if k >= len(v[0]):
        return ((), v[1] and False, v[2])
    return v[0][:k] + v[0][k + 1:], v[1], v[2]


class Space:
    def __init__(self, p):
        self.p = p
        self.cache, self.dcache, self.ecache = {}, {}, {}
        self.depth = 0

    # ---- context: self.<flag> conditions in force
    def flags(self, conds, f=None):
        out = set()
        for t, b in conds:
            while t[0] == "not" or t[0] == "op" and t[1] == "not":
                t, b = t[-1], not b
            x = t
            while x[0] == "attr":
                x = x[1]
            if t[0] == "attr" and x == ("self",):
                out.add((t, b))
        return frozenset(out)

    def entry(self, f, seen=()):
        """Flags in force at every call of a private method."""
        if f.qual in self.ecache:
            return self.ecache[f.qual]
        if not f.name.startswith("_") or f.name.startswith("__") or f.cls is None or f.qual in seen:
            return frozenset()
        r = None
        for e, d, exact in self.p.call_sites().get(f.qual, []):
            if e.fn.cls is None or not (e.t[1][0] == "attr" and e.t[1][1] == ("self",)):
                r = frozenset()
                break
            c = self.flags(e.conds) | self.entry(e.fn, seen + (f.qual,))
            r = c if r is None else r & c
        r = r or frozenset()
        if not seen:
            self.ecache[f.qual] = r
        return r

    @staticmethod
    def against(a, b):
        return any((t, not v) in b for t, v in a)

    # ---- values
    def val(self, t, f, ctx=frozenset(), seen=()):
        key = (t, f.qual, ctx)
        if key in self.cache:
            return self.cache[key]
        if len(seen) > 14 or key in seen:
            return U
        r = self._val(t, f, ctx, seen + (key,))
        if not seen:
            self.cache[key] = r
        return r

    def many(self, it):
        r, first = U, True
        for v in it:
            r = v if first else join(r, v)
            first = False
            if r is U:
                return U
        return r

    def _val(self, t, f, ctx, seen):
        def V(x, g=f, c=ctx):
            return self.val(x, g, c, seen)
        k = t[0]
        if k in ("phi", "ite"):
            return self.many(V(x) for x in pyx.alts(t) if x not in (("undef",), ("c", None)))
        if k == "c":
            return SCALAR
        if k == "idx":
            a = self.first(t[1], f, ctx, seen)
            return (), True, a
        if k == "rng":
            a = t[1]
            n = a[0] if len(a) == 1 else a[1] if len(a) == 2 and a[0] == ("c", 0) else None
            d = None if n is None else self.dim(n, f, ctx, seen)
            return (), True, d if d is None or "BAND" not in d else d | S("BAND0")     # all bands: positions in either list
        if k == "elem":
            v = drop(V(t[1]))
            return v
        if k == "sub":
            if t[1][0] == "call" and t[2][0] == "c" and isinstance(t[2][1], int) and t[2][1] >= 0:
                tg, full = self.p.targets(t[1][1], f)
                if tg and full and not any(x for _, x in tg) and all(e.t is not None and e.t[0] == "tuple" for g, _ in tg for e in self.p.returns(g)):
                    v = self.callitem(t[2][1], t[1], f, ctx, seen)
                    if v is not NotImplemented:
                        return v
            return self.index(t[1], t[2], f, ctx, seen)
        if k == "item":
            if t[2][0] == "call":
                v = self.callitem(t[1], t[2], f, ctx, seen)
                if v is not NotImplemented:
                    return v
            if t[2][0] == "elem":
                x = V(t[2])
                return drop(x)
            return self.index(t[2], ("c", t[1]), f, ctx, seen)
        if k == "attr":
            return self.attribute(t, f, ctx, seen)
        if k == "param":
            return self.param(t, f, ctx, seen)
        if k == "call":
            return self.call(t, f, ctx, seen)
        if k == "op":
            if len(t) < 4:
                v = V(t[2]) if len(t) > 2 else U
                return U if v is U else (v[0], v[1], None)
            a, b = V(t[2]), V(t[3])
            r = self.broadcast(a, b)
            return r
        if k == "comp" and len(t) > 3 and t[1] in ("list", "gen", "listcomp", "ListComp"):
            its = t[3]
            if len(its) == 1:
                a = self.first(its[0], f, ctx, seen)
                e = V(t[2])
                return ((a,) + (e[0] if e is not U else ()), e is not U and e[1], e[2] if e is not U else None)
            return U
        if k in ("tuple", "list"):
            vs = [V(x) for x in t[1]]
            if vs and all(v is not U and v[2] is not None for v in vs):
                el = S()
                for v in vs:
                    el |= v[2]
                return ((None,), False, el)
            return U
        return U

    def broadcast(self, a, b):
        if a is U or b is U:
            x = b if a is U else a
            return U
        if not a[0] and a[1]:
            return b[0], b[1], None
        if not b[0] and b[1]:
            return a[0], a[1], None
        if a[1] and b[1]:
            n = max(len(a[0]), len(b[0]))
            x, y = (S(),) * 0 + (None,) * 0, None
            pa, pb = (False,) * (n - len(a[0])) + a[0], (False,) * (n - len(b[0])) + b[0]
            return tuple((q if p is False or p is None else p) for p, q in zip(pa, pb)), True, None
        return U

    def first(self, t, f, ctx, seen):
        """Space of the positions enumerated by iterating over t."""
        if t[0] == "call" and t[1] == ("builtin", "zip"):
            for x in t[2]:
                a = self.first(x, f, ctx, seen)
                if a is not None:
                    return a
            return None
        if t[0] == "call" and t[1] == ("builtin", "range"):
            return self.dim(t[2][0], f, ctx, seen) if len(t[2]) == 1 else None
        if t[0] == "call" and t[1] == ("builtin", "enumerate"):
            return self.first(t[2][0], f, ctx, seen)
        v = self.val(t, f, ctx, seen)
        if v is not U and v[0] and v[0][0] is not None:
            return v[0][0]
        return self.named(t, f)

    def named(self, t, f=None):
        # integration weights are asked for at sampling points or at the frequencies of the chosen bands
        if t == ("param", "frequency_points") and f is not None and f.module.name.endswith("phonon3.triplets"):
            return S("FPT", "BAND0")
        n = t[2] if t[0] == "attr" else t[1] if t[0] == "param" else None
        if isinstance(n, str) and n.lstrip("_") in AXIS:
            return S(AXIS[n.lstrip("_")])
        return None

    def dim(self, t, f, ctx=frozenset(), seen=()):
        """Space of range(t)."""
        key = ("dim", t, f.qual, ctx)
        if key in self.dcache:
            return self.dcache[key]
        if len(seen) > 14 or key in seen:
            return None
        r = self._dim(t, f, ctx, seen + (key,))
        if not seen:
            self.dcache[key] = r
        return r

    def _dim(self, t, f, ctx, seen):
        k = t[0]
        if k in ("phi", "ite"):
            r = None
            for i, x in enumerate(y for y in pyx.alts(t) if y != ("undef",)):
                d = self.dim(x, f, ctx, seen)
                if d is None:
                    return None
                r = d if r is None else r | d
            return r
        if k == "call":
            c = t[1]
            if c == ("builtin", "len") and t[2]:
                return self.first(t[2][0], f, ctx, seen)
            if c == ("builtin", "int") and t[2]:
                return self.dim(t[2][0], f, ctx, seen)
            if c == ("ext", "numpy.prod") and t[2] and self.mesh(t[2][0]):
                return S("GR")
            if c[0] == "attr" and c[2] == "prod" and self.mesh(c[1]):
                return S("GR")
            if c[0] == "call":
                return None
            return self.through(t, f, ctx, seen, self.dim)
        if k == "op" and t[1] == "*" and len(t) == 4:
            for a, b in ((t[2], t[3]), (t[3], t[2])):
                if b == ("c", 3) and a[0] == "call" and a[1] == ("builtin", "len") and self.primitive(a[2][0]):
                    return S("BAND")
            return None
        if k == "sub" and t[1][0] == "attr" and t[1][2] == "shape" and t[2][0] == "c" and isinstance(t[2][1], int):
            return self.axis(t[1][1], t[2][1], f, ctx, seen)
        if k == "item" and t[2][0] == "attr" and t[2][2] == "shape":
            return self.axis(t[2][1], t[1], f, ctx, seen)
        if k == "attr":
            return self.stored(t, f, ctx, seen, self.dim, lambda a, b: None if a is None or b is None else a | b)
        if k == "param":
            return self.passed(t, f, ctx, seen, self.dim, lambda a, b: None if a is None or b is None else a | b)
        return None

    def mesh(self, t):
        n = t[2] if t[0] == "attr" else t[1] if t[0] == "param" else ""
        return isinstance(n, str) and n.lstrip("_") in ("D_diag", "mesh", "mesh_numbers", "mesh_array")

    def primitive(self, t):
        n = t[2] if t[0] == "attr" else t[1] if t[0] == "param" else ""
        return isinstance(n, str) and n.lstrip("_") in ("primitive", "pcell", "masses", "primitive_cell")

    def axis(self, t, k, f, ctx, seen):
        v = self.val(t, f, ctx, seen)
        if v is U or k < 0 and not v[1] or not -len(v[0]) <= k < len(v[0]):
            return self.named(t, f) if k == 0 else None
        return v[0][k] if v[0][k] is not None or k else self.named(t, f)

    # ---- indexing
    def index(self, b, i, f, ctx, seen=()):
        v = self.val(b, f, ctx, seen)
        if v is U:
            return U
        out, n, last = [], 0, True
        for kind, x in self.slots(i):
            if kind == "stop":
                return U
            if n >= len(v[0]):
                if not v[1]:
                    return ((), False, v[2]) if not out else (tuple(out), False, v[2])
                return U
            if kind == "slice":
                full = x[1] == ("c", None) and x[2] == ("c", None)
                out.append(v[0][n] if full else None)
            else:
                w = self.val(x, f, ctx, seen)
                if w is U or not w[1]:
                    return (tuple(out) if w is U or not w[0] else tuple(out) + w[0]), False, v[2]
                out += list(w[0])
            n += 1
        return tuple(out) + v[0][n:], v[1], v[2]

    @staticmethod
    def slots(i):
        for x in (i[1] if i[0] == "tuple" else (i,)):
            if x[0] == "slice":
                yield "slice", x
            elif x[0] == "c" and (x[1] is None or x[1] is Ellipsis) or x[0] == "star" or x == ("ext", "numpy.newaxis"):
                yield "stop", x
                return
            else:
                yield "int", x

    # ---- calls
    def through(self, t, f, ctx, seen, what):
        tg, full = self.p.targets(t[1], f)
        if not tg or not full or any(c for _, c in tg):
            return None
        r, first = None, True
        for g, _ in tg:
            for e in self.p.returns(g):
                if e.t in (("c", None), None):
                    continue
                x = self.bound(e.t, g, t, f, ctx, seen, what)
                r = x if first else (None if x is None or r is None else (join(r, x) if what == self.val else r | x))
                first = False
        return r

    def bound(self, t, g, call, f, ctx, seen, what):
        if t[0] == "param" and t[1] in g.params:
            d, errs, exact = self.p.bind(g, call[2], call[3], self.p.is_unbound(call[1], f, g))
            if t[1] in d and isinstance(d[t[1]], tuple):
                return what(d[t[1]], f, ctx, seen)
        c = ctx if call[1][0] == "attr" and call[1][1] == ("self",) else frozenset()
        return what(t, g, c, seen)

    def callitem(self, i, t, f, ctx, seen):
        c = t[1]
        if c == ("ext", "numpy.where") and len(t[2]) == 1:
            a = self.axis(t[2][0], i, f, ctx, seen)
            return ((None,), True, a)
        tg, full = self.p.targets(c, f)
        if not tg or not full or any(x for _, x in tg):
            return U
        r, first = U, True
        for g, _ in tg:
            for e in self.p.returns(g):
                for x in pyx.alts(e.t):
                    if x == ("c", None):
                        continue
                    if x[0] == "tuple" and i < len(x[1]):
                        v = self.bound(x[1][i], g, t, f, ctx, seen, self.val)
                    elif x[0] == "call":
                        v = self.callitem(i, x, g, frozenset(), seen)
                    else:
                        v = U
                    r = v if first else join(r, v)
                    first = False
                    if r is U:
                        return U
        return r

    def call(self, t, f, ctx, seen):
        def V(x):
            return self.val(x, f, ctx, seen)
        c = t[1]
        n = c[1][6:] if c[0] == "ext" and c[1].startswith("numpy.") else None
        if n in ("zeros", "ones", "empty", "full"):
            sh = t[2][0] if t[2] else kw(t, "shape")
            return self.allocated(t, sh, f, ctx, seen)
        if n in LIKE and t[2]:
            v = V(t[2][0])
            return U if v is U else (v[0], v[1], self.elements(t, f, ctx, seen))
        if n in KEEP and t[2]:
            return V(t[2][0])
        if n == "unique" and t[2] and not t[3]:
            v = V(t[2][0])
            return U if v is U else ((None,), True, v[2])
        if n == "where" and len(t[2]) == 3:
            a, b = V(t[2][1]), V(t[2][2])
            v = V(t[2][0])
            return v if v is U else (v[0], v[1], None if a is U or b is U else a[2] if b[2] is None else a[2])
        if n == "arange" and len(t[2]) == 1:
            d = self.dim(t[2][0], f, ctx, seen)
            return ((d,), True, d if d and d <= S("GR", "BZ", "BAND") else None)
        if n in ("dot", "matmul", "einsum", "linalg.norm"):
            return U
        if c[0] == "builtin" and c[1] in ("list", "tuple", "sorted", "int", "abs") and t[2]:
            return V(t[2][0])
        if c[0] == "builtin" and c[1] in ("len", "float", "sum", "max", "min"):
            return SCALAR if c[1] in ("len", "float") else U
        if n in ("sum", "mean") and t[2] or c[0] == "attr" and c[2] in ("sum", "mean") and not self.p.targets(c, f)[0]:
            x = t[2][0] if n else c[1]
            ax = kw(t, "axis", 1 if n else 0)
            v = V(x)
            if v is U or ax is None:
                return SCALAR if ax is None else U
            return drop((v[0], v[1], None), ax[1]) if ax[0] == "c" and isinstance(ax[1], int) else U
        if c[0] == "attr" and c[2] in ("copy", "astype", "tolist", "conj"):
            if not self.p.targets(c, f)[0]:
                return V(c[1])
        if c[0] == "attr" and c[2] in ("transpose",) and not self.p.targets(c, f)[0]:
            v = V(c[1])
            if v is not U and v[1] and len(t[2]) == len(v[0]) and all(x[0] == "c" for x in t[2]):
                return tuple(v[0][x[1]] for x in t[2]), True, v[2]
            return U
        k = kern.kernel_of(c)
        if k is not None:
            return {"rotate_bz_grid_index": ((), True, S("BZ")), "grid_index_from_address": ((), True, S("GR"))}.get(k.name, U)
        if c[0] == "attr" and c[2] in ("get_grid_point_from_address", "get_indices_from_addresses"):
            pass
        if c[0] == "attr" and c[2] == "get_indices_from_addresses":
            return (), False, S("BZ")
        if c[0] in ("func", "attr") and self.zero_address(t):
            return SCALAR
        r = self.through(t, f, ctx, seen, self.val)
        if r is U and c[0] == "func" and c[1].rsplit(".", 1)[-1] in FN:
            return (), False, S(FN[c[1].rsplit(".", 1)[-1]])
        return r

    @staticmethod
    def zero_address(t):
        """The grid point at the origin is number zero in both numberings."""
        return bool(t[2]) and t[2][0][0] in ("list", "tuple") and all(x == ("c", 0) for x in t[2][0][1])

    def allocated(self, t, sh, f, ctx, seen):
        if sh is None:
            return U
        el = self.elements(t, f, ctx, seen)
        if sh[0] in ("tuple", "list"):
            if any(x[0] == "star" for x in sh[1]):
                return U
            return tuple(self.dim(x, f, ctx, seen) for x in sh[1]), True, el
        if sh[0] == "attr" and sh[2] == "shape":
            v = self.val(sh[1], f, ctx, seen)
            return U if v is U else (v[0], v[1], el)
        if sh[0] == "call" or sh[0] in ("param", "item", "attr"):
            d = self.dim(sh, f, ctx, seen)
            return ((d,), True, el) if d is not None else U
        return U

    def elements(self, t, f, ctx, seen):
        """Space of what is stored into an array created in f."""
        r, any_ = None, False
        for e in self.p.events(f):
            if e.kind == "store_sub" and e.t[0] == t:
                v = self.val(e.t[2], f, ctx, seen)
                if v is U or v[2] is None:
                    return None
                r = v[2] if r is None else r | v[2]
            elif e.kind == "aug_sub" and e.t[0] == t:
                return None
            elif e.kind == "call":
                k = kern.kernel_of(e.t[1])
                if k is not None:
                    for fm, a in zip(k.formals, e.t[2]):
                        if a == t:
                            s = kfact(KEL, k, fm)
                            if s is None:
                                return None
                            r = S(s) if r is None else r | S(s)
        return r

    # ---- attributes and parameters
    def attribute(self, t, f, ctx, seen):
        n = t[2]
        if n == "T":
            v = self.val(t[1], f, ctx, seen)
            return U if v is U or not v[1] else (tuple(reversed(v[0])), True, v[2])
        if n in ("bzg2grg", "_bzg2grg"):
            return (S("BZ"),), True, S("GR")
        if n in ("grg2bzg", "_grg2bzg"):
            return (S("GR"),), True, S("BZ")
        if n == "addresses":
            return (S("BZ"), None), True, None
        if n in ("gp_map", "shape", "size", "ndim"):
            return U
        if n in ("real", "imag"):
            return self.val(t[1], f, ctx, seen)
        r = self.stored(t, f, ctx, seen, self.val, join)
        if n.lstrip("_") == "band_indices" and r is U:
            return (S("BAND0"),), True, S("BAND")
        return r

    def stored(self, t, f, ctx, seen, what, comb):
        r, first = None, True
        outside = []
        own = t[1] == ("self",)
        for bt in self.p.typeof(t[1], f):
            if bt[0] == "none":
                continue
            if bt[0] != "inst":
                return None
            c = self.p.classes[bt[1]]
            m = self.p.member(c, t[2])
            if m and m[0] == "property":
                its = [(e.t, m[1], frozenset()) for e in self.p.returns(m[1])]
            else:
                stores = list(self.p.attr_stores(c).get(t[2], []))
                its = self.sides(stores, own, ctx)
                if all(x in (("c", None), ("undef",), None) or x[0] == "param" and not g.name.startswith("_") for x, g, cx in its):
                    for b in self.p.subclasses(c):        # what subclasses compute
                        its += self.sides([e for e in self.p.attr_stores(b).get(t[2], []) if e not in stores], own, ctx)
                if not its:
                    continue              # not an object of this class
            for x, g, cx in its:
                if x in (("c", None), ("undef",), None):
                    continue
                v = what(x, g, cx, seen)
                if x[0] == "param" and not g.name.startswith("_"):
                    if v is U:
                        continue          # given from outside in place of what the class computes
                    if what == self.val and v[1]:
                        outside.append(v)
                        continue
                r = v if first else comb(r, v)
                first = False
                if r is None:
                    return None
        for v in outside:
            if first:
                r, first = v, False
            elif r is not U and r[1] and len(r[0]) == len(v[0]):       # axes not known outside are those the class has
                v = tuple(b if a is None else a for a, b in zip(v[0], r[0])), v[1], v[2]
                r = comb(r, v)
            else:
                r = comb(r, v)
        return r

    def sides(self, stores, own, ctx):
        its = []
        for e in stores:
            fl = self.flags(e.conds) | self.entry(e.fn)
            if own and self.against(fl, ctx):
                continue
            its.append((e.t[2], e.fn, ctx | fl if own else fl))
        return its

    def param(self, t, f, ctx, seen):
        r = self.passed(t, f, ctx, seen, self.val, join)
        if r is U and t[1] in ("bzg2grg", "grg2bzg"):
            return self.attribute(("attr", ("self",), t[1]), f, ctx, seen)
        if r is U and any(a.arg == t[1] and isinstance(a.annotation, ast.Name) and a.annotation.id == "int" for a in
                          f.node.args.args + f.node.args.kwonlyargs):
            return SCALAR
        return r

    def passed(self, t, f, ctx, seen, what, comb):
        if t[1] not in f.params and t[1] not in f.kwonly:
            return None
        r, first = None, True
        for e, d, exact in self.p.call_sites().get(f.qual, []):
            own = f.cls is not None and e.t[1][0] == "attr" and (e.t[1][1] == ("self",) or e.t[1][1][0] in ("super", "call") and "super" in pyx.show(e.t[1][1]))
            fl = self.flags(e.conds) | self.entry(e.fn)
            if own and self.against(fl, ctx):
                continue
            if t[1] not in d:
                if not exact:
                    return None
                continue
            if d[t[1]] == ("c", None):
                continue
            v = what(d[t[1]], e.fn, fl | ctx if own else fl, seen)
            r = v if first else comb(r, v)
            first = False
            if r is None:
                return None
        if not f.name.startswith("_") and not (f.cls is None and f.module.name.split(".")[-1] in ("utils",)):
            return None if first or r is None else r if what == self.dim else r
        return r
