"""P17: modes at or below the cutoff frequency are excluded before a division (guarded-division dataflow analysis, Python and C).

For every division, and every call of a function that divides by its argument, the factors of the denominator that vanish at zero frequency are computed from the resolved expressions (products, roots, exp(x)-1, sinh, np.where, elements of arrays, helper functions). Each factor that is a phonon frequency must be compared with the cutoff frequency, above it, by a condition the operation stands under, by the np.where around it or by the selection of the elements. Divisions by the linewidth of a band need the comparison of that band's frequency, divisions by the temperature a test of the temperature. Elements of the same loops that contribute to a sum from which another mode is excluded must be compared themselves. The same is done in the C code along its if/else, return and continue structure, together with: a result that is computed only under a comparison needs another value otherwise, and the marker of an excluded occupation has to be tested for the same element before it is used."""
import ast
import re
import pyx
import p14
import cfront
import cguard
from common import Broken
from pyx import subterms, show

SCOPE = re.compile(r"phono3py/(conductivity/|phonon/|phonon3/|sscha/|other/isotope)")
OUT = re.compile(r"phonon3/gruneisen")
ARRAYISH = {"array", "asarray", "ascontiguousarray", "abs", "absolute", "fabs", "sqrt", "real", "transpose", "ravel", "reshape", "copy", "astype", "flatten", "conj", "squeeze", "atleast_1d", "float", "double", "square", "repeat", "rint"}
ZEROS = {"sinh", "tanh", "sin", "expm1", "arctan", "tan"}
# functions of phonopy that divide by a function of an argument: name -> (frequency argument, temperature argument)
EXTERNAL = {"mode_cv": (1, 0), "mode_F": None, "mode_S": (1, 0)}
CUT = re.compile(r"cutoff")


def cname(t):
    """Last part of the name of a called object."""
    if t[0] == "attr":
        return t[2]
    if t[0] in ("ext", "builtin", "func", "class"):
        x = t[1] if isinstance(t[1], str) else getattr(t[1], "name", "")
        return x.split(".")[-1]
    return ""


def norm(t):
    """Normal form: conversions of arrays dropped, indexing by the loop counter of the same iterable as its element."""
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == "call":
        n = cname(t[1])
        a = t[2]
        if n in ("array", "asarray", "ascontiguousarray", "copy", "astype", "float", "double"):
            if t[1][0] == "attr" and n in ("copy", "astype"):
                return norm(t[1][1])
            if a:
                return norm(a[0])
    if t[0] == "sub":
        b, i = norm(t[1]), norm(t[2])
        if isinstance(i, tuple) and i and i[0] == "tuple":
            for x in i[1]:
                b = norm(("sub", b, x))
            return b
        if isinstance(i, tuple) and i and i[0] == "idx" and norm(i[1]) == b:
            return ("elem",) + (b,) + i[2:]
        return ("sub", b, i)
    return tuple(norm(x) if isinstance(x, tuple) else x for x in t)


def scale(t):
    """Strip constant factors (unit conversions)."""
    while True:
        if t[0] == "op" and t[1] in ("*", "/") and len(t) == 4:
            if const(t[3]):
                t = t[2]
                continue
            if t[1] == "*" and const(t[2]):
                t = t[3]
                continue
        return t


def const(t):
    if t[0] == "c":
        return True
    if t[0] in ("ext", "gvar", "mod"):
        return True
    if t[0] == "op":
        return all(const(x) for x in t[2:] if isinstance(x, tuple))
    return t[0] == "neg" and const(t[1])


def strict_zero(t):
    return t[0] == "c" and isinstance(t[1], (int, float)) and not isinstance(t[1], bool)


class Vanish:
    """Factors of a term that vanish with it."""

    def __init__(self, p):
        self.p = p
        self.depth = 0

    def of(self, t, at=None):
        """Set of (factor, ((cond, bool), ...)): conditions of np.where around it."""
        out = []
        self._of(t, (), out)
        return out

    def _of(self, t, conds, out):
        k = t[0]
        if k == "op" and len(t) >= 4:
            if t[1] in ("*", "@"):
                self._of(t[2], conds, out)
                self._of(t[3], conds, out)
                return
            if t[1] == "/":
                self._of(t[2], conds, out)
                return
            if t[1] == "**":
                if t[3][0] == "c" and isinstance(t[3][1], (int, float)) and t[3][1] > 0:
                    self._of(t[2], conds, out)
                return
            if t[1] == "-" and t[3] in (("c", 1), ("c", 1.0)):
                x = t[2]
                at = None
                if x[0] == "sub":
                    x, at = x[1], x[2]
                if x[0] == "call" and cname(x[1]) == "exp" and x[2]:
                    a = x[2][0]
                    if at is not None:
                        a = pick(a, at)
                    self._of(a, conds, out)
                return
            return
        if k == "neg" or (k == "op" and t[1] in ("neg", "pos")):
            self._of(t[-1], conds, out)
            return
        if k == "call":
            n = cname(t[1])
            a = t[2]
            if n == "where" and len(a) == 3:
                self._of(a[1], conds + ((a[0], True),), out)
                self._of(a[2], conds + ((a[0], False),), out)
                return
            if t[1][0] == "attr" and n in ARRAYISH and not (t[1][1][0] in ("mod", "ext")):
                self._of(t[1][1], conds, out)
                return
            if (n in ARRAYISH or n in ZEROS) and a:
                self._of(a[0], conds, out)
                return
            out.append((t, conds))
            return
        if k == "sub":
            b = t[1]
            if b[0] in ("op", "call", "phi", "ite", "list", "tuple"):
                x = pick(b, t[2])
                if x != t and x[0] != "sub":
                    self._of(x, conds, out)
                    return
            out.append((t, conds))
            return
        if k == "elem":
            b = t[1]
            if b[0] == "op" or (b[0] == "call" and cname(b[1]) in ARRAYISH | {"where"}):
                n0 = len(out)
                self._of(b, conds, out)
                for i in range(n0, len(out)):
                    z, c = out[i]
                    out[i] = (("elem", z) + t[2:], tuple((("elem", y) + t[2:], w) for y, w in c[len(conds):]) + conds) if not const(z) else (z, c)
                return
            out.append((t, conds))
            return
        if k == "attr" and t[2] == "T":
            self._of(t[1], conds, out)
            return
        if k in ("phi", "ite"):
            for x in pyx.alts(t):
                if x is not t and x[0] not in ("phi", "ite"):
                    self._of(x, conds, out)
            return
        out.append((t, conds))


def pick(t, i):
    """Element i of an elementwise expression."""
    k = t[0]
    if k in ("list", "tuple"):
        xs = t[1]
        if i[0] == "c" and isinstance(i[1], int) and -len(xs) <= i[1] < len(xs):
            return xs[i[1]]
        return ("sub", t, i)
    if k == "c" or const(t):
        return t
    if k == "op":
        return t[:2] + tuple(pick(x, i) if isinstance(x, tuple) else x for x in t[2:])
    if k == "call" and cname(t[1]) in (ARRAYISH | ZEROS | {"exp", "where"}) - {"reshape", "transpose", "repeat", "ravel", "flatten"}:
        if t[1][0] == "attr" and t[1][1][0] not in ("mod", "ext"):
            return t[:1] + (("attr", pick(t[1][1], i), t[1][2]),) + t[2:]
        return t[:2] + (tuple(pick(x, i) for x in t[2]),) + t[3:]
    if k in ("phi", "ite"):
        xs = [pick(x, i) for x in pyx.alts(t) if x[0] not in ("phi", "ite")]
        return ("phi",) + (tuple(xs),) if xs else ("sub", t, i)
    return ("sub", t, i)


FLIP = {">": "<", "<": ">", ">=": "<=", "<=": ">="}
NEG = {">": "<=", "<": ">=", ">=": "<", "<=": ">"}


class Py:
    def __init__(self, p, R):
        self.p, self.R = p, R
        self.V = Vanish(p)
        self.sing = {}      # function -> {(param, what)}
        self.why = {}
        self._inl = {}

    # -- conditions ------------------------------------------------------------------------------
    def inline(self, t, f, depth=0):
        """Condition terms with calls of predicate helpers replaced by what they return."""
        if not isinstance(t, tuple) or not t or depth > 3:
            return t
        if t[0] == "call":
            gs, comp = self.p.targets(t[1], f)
            if comp and len(gs) == 1 and not gs[0][1]:
                g = gs[0][0]
                rs = self.p.returns(g)
                if len(rs) == 1 and not rs[0].conds and rs[0].t and g.qual in self.p._ownset_q:
                    b, errs, _ = self.p.bind(g, t[2], t[3] if len(t) > 3 else (), self.p.is_unbound(t[1], f, g))
                    if not errs:
                        d = {("param", k): v for k, v in b.items() if isinstance(v, tuple)}
                        if t[1][0] == "attr" and t[1][1] != ("self",):
                            d[("self",)] = t[1][1]
                        return self.inline(p14.subst(rs[0].t, d), g, depth + 1)
        return t

    def atoms(self, t, want, f, out):
        """Comparisons (left, relation, right) that hold when the condition has the value."""
        if t[0] == "call":
            n = cname(t[1])
            if n in ("logical_and", "logical_or") and len(t[2]) == 2:
                if (n == "logical_and") == want:
                    for x in t[2]:
                        self.atoms(x, want, f, out)
                return
            if n == "logical_not" and t[2]:
                return self.atoms(t[2][0], not want, f, out)
            if n in ("all", "any"):
                x = t[2][0] if t[2] else t[1][1] if t[1][0] == "attr" else None
                for y in subterms(x) if x is not None and x[0] == "comp" and (n == "all") == want else ():
                    if y[0] == "elem" and y[1][0] in ("tuple", "list"):
                        for z in y[1][1]:
                            self.atoms(p14.subst(x[2], {y: z}), want, f, out)
                        break
                if x is not None and (n == "all") == want:
                    self.atoms(x, want, f, out)
                return
            if n in ("bool", "array", "asarray") and t[2]:
                return self.atoms(t[2][0], want, f, out)
            x = self.inline(t, f)
            if x is not t and x[0] in ("op", "not"):
                self.atoms(x, want, f, out)
            return
        if t[0] == "not":
            return self.atoms(t[1], not want, f, out)
        if t[0] == "ite" and want:
            for x, y in ((2, 3), (3, 2)):
                if t[x] in (("c", False), ("c", 0)):
                    self.atoms(t[1], x == 3, f, out)
                    self.atoms(t[y], want, f, out)
            return
        if t[0] in ("sub", "elem") and t[1][0] == "op":
            return self.atoms(distribute(t), want, f, out)
        if t[0] != "op":
            return
        o = t[1]
        if o == "not" or o == "~":
            return self.atoms(t[2], not want, f, out)
        if o in ("and", "&") and want or o in ("or", "|") and not want:
            for x in t[2:]:
                self.atoms(x, want, f, out)
            return
        if o in FLIP and len(t) == 4:
            r = o if want else NEG[o]
            for l, r, c in ((t[2], r, t[3]), (t[3], FLIP[r], t[2])):
                n = cname(l[1]) if l[0] == "call" else ""
                if n in ("min", "amin", "minimum", "fmin") and r in (">", ">=") and l[2]:
                    xs = l[2][0][1] if len(l[2]) == 1 and l[2][0][0] in ("tuple", "list") else l[2]
                    out.extend((x, r, c) for x in xs)
                out.append((l, r, c))

    def cutlike(self, t):
        t = scale(t)
        if strict_zero(t):
            return False
        if t[0] in ("attr", "param", "gvar"):
            n = t[2] if t[0] == "attr" else t[1]
            return bool(CUT.search(str(n)))
        if t[0] == "call" and cname(t[1]) in ("abs", "float", "getattr") and t[2]:
            return self.cutlike(t[2][0])
        if t[0] in ("phi", "ite"):
            xs = [x for x in pyx.alts(t) if x != ("c", None)]
            return bool(xs) and all(self.cutlike(x) for x in xs)
        return False

    def above(self, conds, f):
        """Terms known to be above a cutoff: [(normal term, strict)]."""
        out, res = [], []
        for c, w in conds:
            self.atoms(c, w, f, out)
        for l, r, c in out:
            if r in (">", ">=") and self.cutlike(c):
                res.append((norm(scale(l)), r == ">"))
        return res

    def guarded(self, z, conds, f, strict=True):
        for l, s in self.above(conds, f):
            if strict and not s:
                continue
            if same(z, l):
                return True
            for y, c in self.V.of(l):
                if same(z, norm(y)) and not (c and const(l)):
                    return True
        return False

    # -- frequency roots ---------------------------------------------------------------------------
    def root(self, z, f):
        while z[0] in ("sub", "elem") or (z[0] == "attr" and z[2] in ("T", "real")) or (z[0] == "item"):
            z = z[2] if z[0] == "item" else z[1]
        return z

    def isfreq(self, z, f):
        r = self.root(z, f)
        if r[0] == "attr":
            return bool(FREQ.match(r[2]))
        if r[0] == "call" and cname(r[1]) in ("eigh", "eigvalsh") and f.cls is not None:
            return bool(self.cutattr(f))
        return False

    def cutattr(self, f):
        return [n for n in self.p.attr_stores(f.cls) if CUT.search(n) and "freq" in n] if f.cls is not None else []

    def istemp(self, z, f):
        r = self.root(z, f)
        return r[0] == "attr" and bool(TEMP.match(r[2]))

    # -- sinks ---------------------------------------------------------------------------------------
    def where_conds(self, f, e):
        """Conditions of np.where calls that select the value of a node."""
        par = p14.parents(f)
        calls = self.callmap(f)
        out, n = [], e.node
        inside = False
        while n in par and not isinstance(n, ast.stmt):
            m = par[n]
            if isinstance(m, ast.Call):
                ce = calls.get(m)
                name = m.func.attr if isinstance(m.func, ast.Attribute) else getattr(m.func, "id", "")
                if name == "where" and ce is not None and len(m.args) == 3 and n in m.args[1:]:
                    out.append((ce.t[2][0], n is m.args[1]))
                if name in ("exp", "sinh", "cosh", "tanh", "expm1") or name in self.harmless:
                    inside = True
            n = m
        return tuple(out), inside

    def callmap(self, f):
        if f.qual not in self._inl:
            self._inl[f.qual] = {e.node: e for e in self.p.events(f) if e.kind == "call"}
        return self._inl[f.qual]

    def run(self):
        p, R = self.p, self.R
        p._ownset_q = {f.qual for f in p.own_funcs()}
        self.funcs = [f for f in p.own_funcs() if SCOPE.search(f.file) and not OUT.search(f.file)]
        self.harmless = {"bose_einstein"}
        self.harmless |= {f.name for f in self.funcs if False}
        self.pending = []
        for _ in range(4):
            before = {k: set(v) for k, v in self.sing.items()}
            for f in self.funcs:
                self.scan(f, None)
            if before == self.sing:
                break
        for f in self.funcs:
            self.scan(f, R)
        self.pend = {}
        for f in self.funcs:
            self.mixed(f)
        self.mixed_calls()
        self.sentinels()
        R.count("functions scanned (Python)", len(self.funcs))

    def sinks(self, f):
        """(event, denominator term, what) of the operations that are singular where the term is zero."""
        for e in self.p.events(f):
            if e.kind == "binop" and e.t[0] == "op" and len(e.t) == 4:
                if e.t[1] in ("/", "//") and not (e.t[2][0] == "c" and isinstance(e.t[2][1], str)):
                    yield e, e.t[3], "divides by"
                elif e.t[1] == "**" and (e.t[3][0] == "c" and isinstance(e.t[3][1], (int, float)) and e.t[3][1] < 0 or e.t[3][0] == "op" and e.t[3][1] == "neg"):
                    yield e, e.t[2], "divides by"
            elif e.kind in ("aug_name", "aug_attr", "aug_sub") and e.t[1 if e.kind == "aug_name" else 2] in ("/", "//"):
                yield e, e.t[3], "divides by"
            elif e.kind == "call" and e.t[0] == "call":
                n = cname(e.t[1])
                if n in ("sqrt",) and e.t[2] and not any(x[0] == "call" and cname(x[1]) in ("abs", "absolute", "fabs") for x in subterms(e.t[2][0])):
                    yield e, e.t[2][0], "takes the square root of"
                elif n == "reciprocal" and e.t[2]:
                    yield e, e.t[2][0], "divides by"
                elif n in ("divide", "true_divide") and len(e.t[2]) > 1 and not (len(e.t) > 3 and any(k == "where" for k, _ in e.t[3])):
                    yield e, e.t[2][1], "divides by"
                elif n in EXTERNAL and EXTERNAL[n]:
                    i, j = EXTERNAL[n]
                    if len(e.t[2]) > i:
                        yield e, e.t[2][i], "calls %s with" % n
                    if len(e.t[2]) > j:
                        yield e, e.t[2][j], "calls %s with" % n
                else:
                    for g, ctor in self.p.targets(e.t[1], f)[0]:
                        if ctor or g.qual not in self.sing:
                            continue
                        b, errs, _ = self.p.bind(g, e.t[2], e.t[3] if len(e.t) > 3 else (), self.p.is_unbound(e.t[1], f, g))
                        for q in self.sing[g.qual]:
                            if isinstance(b.get(q), tuple):
                                yield e, b[q], "calls %s, which divides by it, with" % g.name

    def scan(self, f, R):
        p = self.p
        tret = None
        for e, d, what in self.sinks(f):
            wc, inside = self.where_conds(f, e)
            conds = tuple(e.conds) + wc
            dn = norm(d)
            if R and dn[0] == "call" and cname(dn[1]) == "where" and len(dn[2]) == 3 and what == "divides by":
                m = dn[2][2]
                if m[0] == "c" and isinstance(m[1], (int, float)) and m[1] < 0 and self.above(((dn[2][0], True),), f):
                    R.count("divisions by values with a marker")
                    if not any(dn in set(subterms(norm(c))) for c, _ in conds):
                        R.report("marker-not-tested", f.qual, "division", "%s divides by %s, which is negative for excluded modes, without testing it" % (f.short, show(dn)), e.line)
            if R and what == "divides by":
                self.sum_of(d, conds, inside, f, e, R)
            for z, zc in self.V.of(dn):
                z = norm(z)
                allc = conds + tuple(zc)
                if zc and const(z):
                    continue
                r = self.root(z, f)
                if r[0] == "param":
                    if self.guarded(z, allc, f) or self.masked(z, f):
                        continue
                    if TEMP.match(r[1]) and self.mentioned(z, allc):
                        continue
                    if inside and TEMP.match(r[1]):
                        continue
                    if what.startswith("takes the square root"):
                        continue
                    self.sing.setdefault(f.qual, set()).add(r[1])
                    if R and FREQ.match(r[1]) and not p.call_sites().get(f.qual) and (self.cutattr(f) or any(CUT.search(q) for q in f.params)):
                        R.report("frequency-not-compared", f.qual, "%s %s" % (what.split()[0], r[1]), "%s %s %s without a comparison of it with the cutoff frequency" % (f.short, what, show(z)), e.line)
                    continue
                if self.isfreq(z, f):
                    if R:
                        R.count("frequency denominators")
                    if self.guarded(z, allc, f) or self.masked(z, f):
                        continue
                    if R:
                        R.report("frequency-not-compared", f.qual, "%s %s" % (what, r[2] if r[0] == "attr" else r[0]), "%s %s the phonon frequency %s, which is not above the cutoff frequency on every way there" % (f.short, what, show(z)), e.line)
                elif self.istemp(z, f):
                    if inside:
                        continue
                    if R:
                        R.count("temperature denominators")
                    if self.mentioned(z, allc):
                        continue
                    rs = p.returns(f)
                    if tret is None:
                        tret = bool(rs) and any(self.mentioned(z, x.conds) or self.mentioned_in(z, x.t) for x in rs)
                    if tret:
                        continue
                    if R:
                        R.report("temperature-not-tested", f.qual, "%s %s" % (what, r[2]), "%s %s the temperature %s, which can be zero" % (f.short, what, show(z)), e.line)
                elif self.linewidth(r, f):
                    if R:
                        R.count("linewidth denominators")
                    if z[0] in ("call", "attr") or zc:
                        continue
                    if not self.band_compared(z, allc, f) and R and z[0] in ("sub", "elem"):
                        R.report("band-not-excluded", f.qual, "linewidth", "%s divides by the linewidth %s of a band whose frequency is not compared with the cutoff frequency" % (f.short, show(z)), e.line)

    def sum_of(self, d, conds, inside, f, e, R):
        """A sum of terms that all vanish for an acoustic mode at Gamma: divided by under a comparison of it or of a frequency only."""
        for a in pyx.alts(d):
            if not (a[0] == "op" and a[1] in ("+", "-") and len(a) == 4):
                continue
            parts = self.summands(a)
            fq = [x for q in parts for x in subterms(q) if x[0] in ("sub", "elem", "param", "attr") and
                  (self.isfreq(x, f) or self.root(x, f)[0] == "param" and FREQ.match(self.root(x, f)[1]))]
            if not fq or any(not any(x[0] in ("param", "attr", "sub", "elem") for x in subterms(q)) for q in parts):
                continue                      # a constant is added
            if any(x[0] == "attr" and "epsilon" in x[2] or x[0] == "param" and "epsilon" in x[1] for q in parts for x in subterms(q)):
                continue
            R.count("divisions by sums of frequencies")
            ok = {norm(x) for x in fq} | {self.root(x, f) for x in fq} | {norm(a), a}
            if any(y in ok or norm(y) in ok or self.cutlike(y) for c, _ in conds for x in subterms(c) if x[0] == "op" and x[1] in set(FLIP) | {"==", "!="} for y in subterms(x)):
                continue
            R.report("frequency-not-compared", f.qual, "divides by a sum of frequencies", "%s divides by %s, whose terms all vanish for an acoustic mode at Gamma, without comparing it or the frequency" % (
                f.short, show(a)[:120]), e.line)

    @staticmethod
    def summands(t):
        if t[0] == "op" and t[1] in ("+", "-") and len(t) == 4:
            return Py.summands(t[2]) + Py.summands(t[3])
        return [t]

    def masked(self, z, f):
        """The elements are selected by a comparison of the same array."""
        while z[0] in ("sub", "elem"):
            if z[0] == "sub":
                for x in subterms(z[2]):
                    if x[0] == "op" and x[1] in FLIP:
                        for l, s in self.above(((x, True),), f):
                            if s and (same(z[1], l) or any(same(z[1], norm(y)) for y, _ in self.V.of(l))):
                                return True
                    elif x[0] == "call":
                        y = self.inline(x, f)
                        if y is not x and self.masked(("sub", z[1], y), f):
                            return True
            z = z[1]
        return False

    def mentioned(self, z, conds):
        r = self.bare(z)
        return any(self.mentioned_in(r, c) for c, _ in conds)

    def bare(self, z):
        return z

    def mentioned_in(self, z, t):
        """A comparison with the term (or the array of it) occurs in a term."""
        if not isinstance(t, tuple):
            return False
        zs = {z, norm(z)}
        for x in subterms(t):
            if x[0] == "op" and x[1] in set(FLIP) | {"==", "!="}:
                for y in subterms(x):
                    if y in zs or norm(y) in zs:
                        return True
        return False

    def linewidth(self, r, f):
        if r[0] == "call":
            n = cname(r[1])
            if n == "_get_main_diagonal":
                return True
            if n in ("diagonal", "diag"):
                return any(x[0] == "attr" and x[2] == "_collision_matrix" for x in subterms(r))
        return False

    def band_compared(self, z, conds, f):
        i = last(z)
        for l, _ in self.above(conds, f):
            if self.isfreq(l, f) or (self.root(l, f)[0] == "param" and FREQ.match(self.root(l, f)[1])):
                j = last(l)
                if j is not None and (j == i or any(x == j for x in subterms(i))):
                    return True
        return False

    # -- contributions ---------------------------------------------------------------------------------
    def compared(self, x, ab, f):
        return any(same(x, l) for l in ab) or self.masked(x, f)

    def mixed(self, f):
        """A sum from which one mode is excluded contains another frequency element that is never compared."""
        self.pend.setdefault(f.qual, {})
        for e in self.p.events(f):
            if e.kind in ("aug_name", "aug_attr", "aug_sub") and e.t[1 if e.kind == "aug_name" else 2] in ("+", "-"):
                val = e.t[3]
            elif e.kind == "store_sub":
                val = e.t[2]
            elif e.kind == "call" and cname(e.t[1]) == "append" and e.t[2]:
                val = e.t[2][0]
            else:
                continue
            if not e.loops:
                continue
            here = {(n.lineno, n.col_offset) for _, n in e.loops if hasattr(n, "lineno")}
            els, par = set(), set()
            for x in subterms(norm(val)):
                if sliced(x) or not all(y[2] in here for y in subterms(x) if y[0] in ("elem", "idx")):
                    continue
                if x[0] in ("elem", "sub"):
                    if self.isfreq(x, f):
                        els.add(x)
                    elif self.root(x, f)[0] == "param":
                        par.add(x)
                elif x[0] == "param":
                    par.add(x)
            els = {x for x in els if not any(y != x and x in set(subterms(y)) for y in els)}
            els = {x for x in els if x[1][0] in ("sub", "elem")}
            par = {x for x in par if not any(y != x and x in set(subterms(y)) for y in par)}
            ab = [l for l, _ in self.above(e.conds, f)]
            some = any(self.isfreq(l, f) for l in ab)
            somep = some or any(self.root(l, f)[0] == "param" and FREQ.match(self.root(l, f)[1]) for l in ab)
            for x in sorted(els, key=str):
                self.R.count("contributing frequencies")
                if some and not self.compared(x, ab, f):
                    self.R.report("mode-not-excluded", f.qual, "contribution", "%s adds a contribution of the mode with frequency %s, which is not compared with the cutoff frequency although another one is" % (f.short, show(x)), e.line)
            for x in sorted(par, key=str):
                if not self.compared(x, ab, f):
                    self.pend[f.qual][x] = (somep or self.pend[f.qual].get(x, (False,))[0], e.line)

    def mixed_calls(self):
        """Elements of parameters are judged where the function is called."""
        work = [(q, x, s, l) for q, d in self.pend.items() for x, (s, l) in d.items()]
        fun = {f.qual: f for f in self.funcs}
        done = set()
        while work:
            q, x, s, l = work.pop()
            if (q, x, s) in done:
                continue
            done.add((q, x, s))
            for e, b, exact in self.p.call_sites().get(q, ()):
                g = e.fn
                if g.qual not in fun:
                    continue
                y = norm(p14.subst(x, {("param", k): v for k, v in b.items() if isinstance(v, tuple)}))
                ab = [t for t, _ in self.above(e.conds, g)]
                some = s or any(self.isfreq(t, g) for t in ab)
                if self.compared(y, ab, g):
                    continue
                if self.isfreq(y, g) and y[1][0] in ("sub", "elem"):
                    self.R.count("contributing frequencies")
                    if some:
                        self.R.report("mode-not-excluded", q, "contribution", "%s adds a contribution of the mode with frequency %s, which neither it nor %s compares with the cutoff frequency although another one is" % (fun[q].short, show(x), g.short), l)
                elif self.root(y, g)[0] == "param":
                    work.append((g.qual, y, some, e.line))

    # -- markers of excluded modes --------------------------------------------------------------------------
    def sentinels(self):
        p = self.p
        for c in {id(f.cls): f.cls for f in self.funcs if f.cls is not None}.values():
            for a, evs in p.attr_stores(c).items():
                marks = False
                for e in evs:
                    v = e.t[2] if isinstance(e.t, tuple) and len(e.t) > 2 else None
                    if isinstance(v, tuple) and v[0] == "call" and cname(v[1]) == "where" and len(v[2]) == 3 and v[2][2][0] == "c" and isinstance(v[2][2][1], (int, float)) and v[2][2][1] < 0:
                        marks = True
                if not marks:
                    continue
                for f in p.class_funcs(c):
                    self.consumer(f, a)

    def consumer(self, f, a):
        used, tested = {}, set()
        A = ("attr", ("self",), a)
        for e in self.p.events(f):
            if e.kind in ("binop", "aug_sub", "aug_name", "aug_attr"):
                for x in subterms(norm(e.t)):
                    if x[0] in ("sub", "elem") and self.root(x, f) == A:
                        used.setdefault(x, e.line)
            for t in [e.t] + [c for c, _ in e.conds]:
                if isinstance(t, tuple):
                    for x in subterms(t):
                        if x[0] == "op" and x[1] in FLIP and len(x) == 4:
                            ys = {y for y in subterms(norm(x)) if y[0] in ("sub", "elem") and self.root(y, f) == A}
                            tested |= {y for y in ys if not any(z != y and y in set(subterms(z)) for z in ys)}
        used = {x: l for x, l in used.items() if not any(y != x and x in set(subterms(y)) for y in used)}
        for x, l in used.items():
            self.R.count("uses of occupations with a marker")
            if x not in tested and not any(x in set(subterms(y)) or y in set(subterms(x)) for y in tested):
                self.R.report("marker-not-tested", f.qual, a, "%s uses %s, which is negative for excluded modes, without testing it" % (f.short, show(x)), l)


def same(a, b):
    return a == b or strip_uid(a) == strip_uid(b)


def strip_uid(t):
    return t


def sliced(t):
    while t[0] in ("sub", "elem"):
        if t[0] == "sub" and t[2][0] == "slice":
            return True
        t = t[1]
    return False


def last(t):
    if t[0] == "sub":
        return t[2]
    if t[0] == "elem":
        return ("idx", t[1]) + t[2:]
    return None


def distribute(t):
    k, b = t[0], t[1]
    rest = t[2:]
    return b[:2] + tuple(((k, x) + rest) if isinstance(x, tuple) and not const(x) and x[0] not in ("attr",) or (isinstance(x, tuple) and x[0] == "attr" and not CUT.search(x[2])) else x for x in b[2:])


FREQ = re.compile(r"^_?(phonon_)?(freqs?|frequenc(y|ies))\d?$")
TEMP = re.compile(r"^_?(temp|temperature|temps|temperatures|t|T)$")


# -- C ---------------------------------------------------------------------------------------------

class C:
    """The same for the C functions, by values and path conditions."""

    def __init__(self, prog, R, config):
        self.R, self.prog, self.config = R, prog, config
        self.funcs = [f for f in prog.all_funcs() if f.body is not None and not f.file.startswith("_")]
        self.walk = {}
        for f in self.funcs:
            self.walk[id(f)] = cguard.Walk(f)
        self.freq = {}     # id(f) -> variables that hold frequencies
        self.cut = {}
        self.mark = {}     # variables whose negative elements mark excluded modes
        self.sing = {}
        self.roles()

    def res(self, name, f):
        g = self.prog.resolve(name, f.file)
        return g if g is not None and id(g) in self.walk else None

    def roles(self):
        for f in self.funcs:
            self.freq[id(f)] = {i for n, t, i in f.params if re.match(r"^freq(uencies|s)$", n) and "*" in t}
            self.cut[id(f)] = {i for n, t, i in f.params if n == "cutoff_frequency"}
            self.mark[id(f)] = set()
        while True:
            n0 = sum(len(x) for d in (self.freq, self.cut, self.mark) for x in d.values())
            for f in self.funcs:
                F, K, M = self.freq[id(f)], self.cut[id(f)], self.mark[id(f)]
                for e in self.walk[id(f)].events:
                    if e.kind == "store" and e.op == "=" and e.t[0][0] == "idx" and self.isfreq(e.t[1], f):
                        r = cguard.root(e.t[0])
                        if r[0] == "v":
                            F.add(r[1])
                    if e.kind == "store" and e.op == "=" and e.t[0][0] == "idx" and negative(e.t[1]) and any(x[0] == "above" and x[3] is False for x in self.atoms(e.conds, f)):
                        r = cguard.root(e.t[0])
                        if r[0] == "v":
                            M.add(r[1])
                    if e.kind == "call":
                        g = self.res(e.t[1], f)
                        if g is None:
                            continue
                        for (n, t, i), a in zip(g.params, e.t[2]):
                            r = cguard.root(a)
                            if r[0] != "v":
                                continue
                            if r[1] in F and (("*" in t or "[" in t) or a[0] == "idx"):
                                self.freq[id(g)].add(i)
                            elif a[0] == "v" and r[1] in F and self.isfreq(a, f):
                                self.freq[id(g)].add(i)
                            if a[0] == "v" and r[1] in K:
                                self.cut[id(g)].add(i)
                            if r[1] in M and a[0] != "idx":
                                self.mark[id(g)].add(i)
                            if i in self.mark[id(g)] and "*" in t:
                                M.add(r[1])
            if n0 == sum(len(x) for d in (self.freq, self.cut, self.mark) for x in d.values()):
                break

    def passed(self, r, f):
        return any(i == r[1] for _, _, i in f.params)

    def isfreq(self, t, f):
        F = self.freq[id(f)]
        r = cguard.root(t)
        if r[0] != "v" or r[1] not in F:
            return False
        ty = self.walk[id(f)].types.get(r[1], "")
        if "*" in ty or "[" in ty:
            return t[0] == "idx"
        return t[0] == "v"

    def atoms(self, conds, f):
        """("above", term, strict, holds) and ("negative", term, holds)."""
        out = []
        for c, w in conds:
            self.atom(c, w, f, out)
        return out

    def atom(self, c, w, f, out):
        if c[0] == "op" and len(c) == 3 and c[1] == "!":
            return self.atom(c[2], not w, f, out)
        if c[0] == "call":
            g = self.res(c[1], f)
            if g is not None:
                rs = [e for e in self.walk[id(g)].events if e.kind == "return"]
                if len(rs) == 1 and not rs[0].conds:
                    self.atom(csubst(rs[0].t, {i: a for (n, t, i), a in zip(g.params, c[2])}), w, f, out)
            return
        if c[0] != "op" or len(c) != 4:
            return
        o, a, b = c[1], c[2], c[3]
        if o in ("&&", "||"):
            if (o == "&&") == w:
                self.atom(a, w, f, out)
                self.atom(b, w, f, out)
            return
        if o not in FLIP:
            return
        for x, y, r in ((a, b, o), (b, a, FLIP[o])):
            if y[0] == "v" and y[1] in self.cut[id(f)]:
                if r in (">", ">="):
                    out.append(("above", x, r == ">" if w else None, w))
                else:
                    out.append(("above", x, r == "<=" if not w else None, not w))
            if y in (("c", 0), ("c", 0.0)):
                if r in ("<", ">="):
                    out.append(("negative", x, (r == "<") == w))
                if r in (">",) and w:
                    out.append(("negative", x, False))

    def guarded(self, z, conds, f, strict=True):
        return any(a[0] == "above" and a[3] and (a[2] or not strict) and (a[1] == z or z in cvanish(a[1])) for a in self.atoms(conds, f))

    def run(self):
        R = self.R
        for _ in range(5):
            n0 = sum(len(x) for x in self.sing.values())
            for f in self.funcs:
                self.scan(f, None)
            if n0 == sum(len(x) for x in self.sing.values()):
                break
        for f in self.funcs:
            self.scan(f, R)
            self.undefined(f)
            self.markers(f)
            self.loads(f)
        self.pend = {}
        for f in self.funcs:
            self.mixed(f)
        self.mixed_calls()
        R.count("functions scanned (C, %s)" % self.config, len(self.funcs))

    def scan(self, f, R):
        for e in self.walk[id(f)].events:
            ds = []
            if e.kind == "div":
                ds.append((e.t[1], "divides by"))
            elif e.kind == "call":
                g = self.res(e.t[1], f)
                if g is not None:
                    for (n, t, i), a in zip(g.params, e.t[2]):
                        if i in self.sing.get(id(g), ()):
                            ds.append((a, "calls %s, which divides by it, with" % g.name))
            for d, what in ds:
                for z in cvanish(d):
                    r = cguard.root(z)
                    if z[0] == "v":
                        if len(z) == 3 and self.passed(z, f) and not self.guarded(z, e.conds, f):
                            self.sing.setdefault(id(f), set()).add(z[1])
                        continue
                    if self.isfreq(z, f) and R:
                        R.count("frequency denominators (C)")
                        if not self.guarded(z, e.conds, f):
                            R.report("frequency-not-compared", f.file, "%s: %s" % (f.name, what.split()[0]), "%s %s the phonon frequency %s, which is not above the cutoff frequency on every way there" % (f.name, what, cguard.show(z)), e.line)

    def undefined(self, f):
        """A result that is stored only for modes above the cutoff."""
        W = self.walk[id(f)]
        stores = {}
        for e in W.events:
            if e.kind == "store" and e.t[0][0] == "idx":
                r = cguard.root(e.t[0])
                if r[0] == "v":
                    stores.setdefault(r[1], []).append((e, r))
            elif e.kind == "call":
                for a in e.t[2]:
                    r = cguard.root(a)
                    if r[0] == "v" and a[0] != "idx":
                        stores.setdefault(r[1], []).append((e, r))
        for v, es in stores.items():
            for e, r in es:
                if e.kind != "store" or e.op != "=":
                    continue
                A = [a for a in self.atoms(e.conds, f) if a[0] == "above" and a[3]]
                if not A:
                    continue
                self.R.count("results stored under a comparison (C)")
                other = False
                for e2, _ in es:
                    if e2 is e:
                        continue
                    A2 = self.atoms(e2.conds, f)
                    if not any(a[0] == "above" and a[3] and a[1] in [x[1] for x in A] for a in A2):
                        other = True
                if other or self.init_by_caller(f, v):
                    continue
                self.R.report("no-value-for-excluded", f.file, "%s: %s" % (f.name, cguard.show(r)), "%s stores %s only for modes above the cutoff frequency and gives it no other value" % (f.name, cguard.show(e.t[0])), e.line)

    def init_by_caller(self, f, v):
        for k, (n, t, i) in enumerate(f.params):
            if i == v:
                break
        else:
            return False
        for g in self.funcs:
            W = self.walk[id(g)]
            for n, e in enumerate(W.events):
                if e.kind == "call" and self.res(e.t[1], g) is f and k < len(e.t[2]):
                    r = cguard.root(e.t[2][k])
                    if r[0] == "call" and r[1] == "calloc":
                        return True
                    for e2 in W.events[:n]:
                        if e2.kind == "store" and cguard.root(e2.t[0]) == r and e2.t[0][0] == "idx" or e2.kind == "call" and e2 is not e and e2.t[1] == "memset" and e2.t[2] and cguard.root(e2.t[2][0]) == r:
                            return True
        return False

    def markers(self, f):
        M = self.mark[id(f)]
        if not M:
            return
        for e in self.walk[id(f)].events:
            vals = [e.t[1]] if e.kind == "store" else [e.t] if e.kind == "return" else []
            for v in vals:
                for x in cguard.sub(v):
                    if x[0] == "idx" and cguard.root(x)[0] == "v" and cguard.root(x)[1] in M:
                        self.R.count("uses of occupations with a marker (C)")
                        if not any(a[0] == "negative" and a[1] == x and not a[2] for a in self.atoms(e.conds, f)):
                            self.R.report("marker-not-tested", f.file, "%s: %s" % (f.name, cguard.show(cguard.root(x))), "%s uses %s, which is negative for excluded modes, without testing it" % (f.name, cguard.show(x)), e.line)

    def mixed(self, f):
        self.pend[id(f)] = {}
        for e in self.walk[id(f)].events:
            if e.kind != "store" or not (e.op in ("+=", "-=") or e.op == "=" and (e.t[0] in set(cguard.sub(e.t[1])))):
                continue
            ab = [a[1] for a in self.atoms(e.conds, f) if a[0] == "above" and a[3]]
            some = any(self.isfreq(a, f) for a in ab)
            xs = {x for x in cguard.sub(e.t[1]) if self.isfreq(x, f)}
            for x in sorted(xs, key=str):
                self.R.count("contributing frequencies (C)")
                if x in ab:
                    continue
                r = cguard.root(x)
                if x[0] == "v" and self.passed(r, f):
                    self.pend[id(f)][x[1]] = (some, e.line)
                elif some:
                    self.R.report("mode-not-excluded", f.file, "%s: contribution" % f.name, "%s adds a contribution of the mode with frequency %s, which is not compared with the cutoff frequency although another one is" % (f.name, cguard.show(x)), e.line)

    def loads(self, f):
        """Frequencies a function with a cutoff reads have to decide about something."""
        if not self.cut[id(f)]:
            return
        W = self.walk[id(f)]
        ok = set()
        for e in W.events:
            if e.kind in ("store", "call"):
                ok |= {a[1] for a in self.atoms(e.conds, f) if a[0] == "above" and a[3]}
        okr = {cguard.root(a)[1] for a in ok if a[0] == "idx" and cguard.root(a)[0] == "v"}
        for e in W.events:
            if e.kind == "store" and e.op == "=" and self.isfreq(e.t[1], f):
                self.R.count("frequencies read (C)")
                x = e.t[1]
                r = cguard.root(e.t[0])
                if e.t[0][0] == "idx":
                    good = r[0] == "v" and (r[1] in okr or any(e2.kind == "call" and e2.t[1] != "free" and any(cguard.root(a)[:2] == r[:2] for a in e2.t[2]) for e2 in W.events))
                else:
                    good = x in ok or self.handed(x, f)
                if not good:
                    self.R.report("mode-not-excluded", f.file, "%s: %s" % (f.name, cguard.show(r)), "%s reads the frequency %s and excludes nothing when it is not above the cutoff frequency" % (f.name, cguard.show(x)), e.line)

    def handed(self, x, f):
        return any(e.kind == "call" and x in e.t[2] for e in self.walk[id(f)].events)

    def mixed_calls(self):
        work = [(f, v, s, l) for f in self.funcs for v, (s, l) in self.pend[id(f)].items()]
        done = set()
        while work:
            f, v, s, l = work.pop()
            if (id(f), v) in done:
                continue
            done.add((id(f), v))
            k = [i for _, _, i in f.params].index(v)
            for g in self.funcs:
                for e in self.walk[id(g)].events:
                    if e.kind == "call" and self.res(e.t[1], g) is f and k < len(e.t[2]):
                        x = e.t[2][k]
                        if not self.isfreq(x, g):
                            continue
                        ab = [a[1] for a in self.atoms(e.conds, g) if a[0] == "above" and a[3]]
                        if x in ab:
                            continue
                        if x[0] == "v" and self.passed(x, g):
                            work.append((g, x[1], s or any(self.isfreq(a, g) for a in ab), e.line))
                        elif s:
                            self.R.report("mode-not-excluded", f.file, "%s: contribution" % f.name, "%s adds a contribution of the mode with frequency %s, which neither it nor %s compares with the cutoff frequency although another one is" % (f.name, cguard.show(x), g.name), l)


def negative(t):
    return t[0] == "op" and t[1] == "-" and len(t) == 3 and t[2][0] == "c" or t[0] == "c" and isinstance(t[1], (int, float)) and t[1] < 0


def csubst(t, d):
    if not isinstance(t, tuple):
        return t
    if t and t[0] == "v" and len(t) == 3 and t[1] in d:
        return d[t[1]]
    if t and t[0] == "poly":
        return t
    return tuple(csubst(x, d) if isinstance(x, tuple) else x for x in t)


def cvanish(t):
    """Factors of a term that vanish with it."""
    k = t[0]
    if k == "op" and len(t) == 4:
        if t[1] == "*":
            return cvanish(t[2]) | cvanish(t[3])
        if t[1] == "/":
            return cvanish(t[2])
        if t[1] == "-" and t[3] in (("c", 1), ("c", 1.0)) and t[2][0] == "call" and t[2][1] == "exp":
            return cvanish(t[2][2][0])
        return set()
    if k == "op" and t[1] == "-":
        return cvanish(t[2])
    if k == "call":
        if t[1] in ("sqrt", "fabs", "sinh", "tanh", "expm1", "sin", "cbrt") and t[2]:
            return cvanish(t[2][0])
        if t[1] == "pow" and t[2]:
            return cvanish(t[2][0])
        return set()
    if k in ("idx", "v", "mem"):
        return {t}
    return set()


def run(R):
    p = pyx.project()
    Py(p, R).run()
    R.require("frequency denominators", 6)
    for config in ("default", "mtblas"):
        C(cfront.load(config), R, config).run()
    R.require("frequency denominators (C)", 8)
    R.require("uses of occupations with a marker (C)", 4)
