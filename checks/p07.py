"""Index-space typing of grid points: BZ numbering, regular-grid numbering and positions in lists of grid points.

Every integer used as grid point is given the numbering it was produced in (conversion tables of the grid, kernels that
fill maps, positions from enumerate), and every place that uses one the numbering it requires (tables over BZ or regular
grid points, arrays stored per position in the list of grid points, kernel arguments); requirements are carried back
through parameters and attributes to the values given.  Reported: a value of one numbering used where another is
required, compared with one of another, or a table handed over where the other is expected; one and the same unconverted
value used under two numberings; a public function that returns the other numbering than its documentation says."""
import pyx, kern, space
from space import S, U, clash, KEL, KAX, kfact

SP = S("BZ", "GR", "IR")
TAB = {"bzg2grg": ("BZ", "GR"), "grg2bzg": ("GR", "BZ")}
# documented numbering of what public functions return (item of the returned tuple -> numbering)
RET = {"get_ir_grid_points": {0: "GR", 2: "GR"}, "get_grid_points_by_rotations": {None: "BZ"},
       "get_indices_from_addresses": {None: "BZ"}, "get_grid_point_from_address": {None: "GR"},
       "get_triplets_at_q": {0: "BZ", 2: "GR", 3: "GR"}, "get_nosym_triplets_at_q": {0: "BZ", 2: "GR", 3: "GR"},
       "get_all_triplets": {None: "BZ"}, "grid_addresses_to_grid_points": {None: "BZ"}, "settings_to_grid_points": {None: "BZ"},
       "gp_Gamma": {None: "BZ"}, "bzg2grg": {None: "GR"}, "grg2bzg": {None: "BZ"}}
WORD = {"BZ": "Brillouin-zone grid number", "GR": "regular-grid number", "IR": "position in the list of grid points"}


def word(s):
    return " or ".join(WORD[x] for x in sorted(s))


class P07:
    def __init__(self, R):
        self.R, self.p = R, pyx.project()
        self.s = space.Space(self.p)
        self.word = word
        self.need, self.axis, self.final = {}, {}, False

    sp = SP

    def grid(self, s):
        return s is not None and s and s <= self.sp

    def where(self, e):
        return "%s %s" % (e.fn.file, e.fn.short)

    def root(self, t, f):
        """The parameter or attribute whose elements the index is."""
        while True:
            k = t[0]
            if k == "elem":
                t = t[1]
            elif k == "item" and t[2][0] == "elem" and t[2][1][0] == "call" and t[2][1][1] == ("builtin", "enumerate") and t[1] == 1:
                t = t[2][1][2][0]
            elif k == "sub":
                v = self.s.val(t[1], f)
                if v is not U and v[2] is not None:
                    return None
                t = t[1]
            elif k == "call" and t[2] and (t[1][0] == "ext" and t[1][1][6:] in space.KEEP or t[1][0] == "builtin" and t[1][1] in ("list", "tuple", "int", "sorted")):
                t = t[2][0]
            elif k == "call" and t[1][0] == "attr" and t[1][2] in ("copy", "astype", "tolist", "ravel", "flatten"):
                t = t[1][1]
            elif k == "param":
                return ("p", f.qual, t[1]) if t[1] in f.params or t[1] in f.kwonly else None
            elif k == "attr" and (t[1] != ("self",) or f.cls is not None):
                cls = f.cls
                if t[2].strip("_") in TAB:      # numbering known by name; may be filled as identity on part of the grid
                    return None
                if t[1] != ("self",):
                    ts = {b for b in self.p.typeof(t[1], f) if b[0] != "none"}
                    if len(ts) != 1 or next(iter(ts))[0] != "inst":
                        return None
                    cls = self.p.classes[next(iter(ts))[1]]
                m = self.p.member(cls, t[2])
                if m and m[0] == "property":
                    r = [e.t for e in self.p.returns(m[1])]
                    if len(r) == 1 and r[0] and r[0] != t and r[0][0] == "attr" and r[0][1] == ("self",):
                        t = ("attr", t[1], r[0][2])
                        continue
                    return None
                c = cls
                for b in self.p.mro(cls):
                    if hasattr(b, "qual") and t[2] in self.p.attr_stores(b):
                        c = b
                return ("a", c.qual, t[2])
            else:
                return None

    def drill(self, t, f, ctx, n=0):
        """(value, function, context) the term may be, following returned values and both sides of a choice."""
        for x in pyx.alts(t):
            if x in (("c", None), ("undef",)):
                continue
            it, c = (x[1], x[2]) if x[0] == "item" and x[2][0] == "call" else (None, x)
            if c[0] == "call" and self.s.zero_address(c):
                continue
            if c[0] == "call" and n < 5:
                tg, full = self.p.targets(c[1], f)
                if tg and full and not any(k for _, k in tg) and all(self.p.returns(g) for g, _ in tg):
                    for g, _ in tg:
                        own = c[1][0] == "attr" and c[1][1] == ("self",)
                        for e in self.p.returns(g):
                            fl = self.s.flags(e.conds)
                            if e.t is None or own and self.s.against(fl, ctx):
                                continue
                            for y in pyx.alts(e.t):
                                if it is not None:
                                    if y[0] == "tuple" and it < len(y[1]):
                                        y = y[1][it]
                                    elif y[0] == "call":
                                        y = ("item", it, y)
                                    else:
                                        continue
                                if y[0] == "param" and y[1] in g.params:
                                    d, errs, exact = self.p.bind(g, c[2], c[3], self.p.is_unbound(c[1], f, g))
                                    if isinstance(d.get(y[1]), tuple):
                                        yield from self.drill(d[y[1]], f, ctx, n + 1)
                                    continue
                                yield from self.drill(y, g, (ctx | fl) if own else fl, n + 1)
                    continue
            yield x, f, ctx

    def known(self, x, f, ctx):
        """Numbering of the elements of x: by where it comes from, or else by what else it is used for."""
        v = self.s.val(x, f, ctx)
        if v is not U and v[2] is not None:
            return v[2], True
        if self.final:
            r = self.root(x, f)
            n = self.need.get(r) if r is not None else None
            z = frozenset.intersection(*n) if n else ()
            if len(z) == 1:
                return z, False
        return None, False

    def require(self, t, f, s, why, e):
        """Note that the elements of t are used as numbers of space s; report when t is known to be of another."""
        for x, g, c in self.drill(t, f, self.ctx(e)):
            el, sure = self.known(x, g, c)
            if el is not None:
                self.R.count("uses of grid points with known numbering" if self.grid(el) else "other indices decided")
                if clash(el, s) and self.grid(el):
                    self.R.report("wrong-numbering", self.where(e), "%s %s as %s" % (pyx.show(x)[:80], why, "/".join(sorted(s))),
                                  "%s%s is a %s, and is used as a %s (%s)" % (pyx.show(x)[:80], "" if g is f else " (%s)" % g.short, self.word(el), self.word(s), why), e.line)
            r = self.root(x, g)
            if s & S("BAND", "BAND0"):
                s = s | S("BAND", "BAND0")
            if r is not None and not self.final:
                d = self.need.setdefault(r, {})
                if s not in d:
                    d[s] = (e, why, el is None)
                    self.changed = True

    def ctx(self, e):
        return self.s.flags(e.conds) | self.s.entry(e.fn)

    def chosen(self, t, f, e, axis):
        """Whether t is the length of a list whose elements are numbers along the axis."""
        if not (t and t[0] == "call" and t[1] == ("builtin", "len") and len(t[2]) == 1):
            return False
        el = self.known(t[2][0], f, self.ctx(e))[0]
        w = self.s.val(t[2][0], f, self.ctx(e))
        own = w[0][0] if w is not U and w[0] else None
        return bool(el) and set(el) == set(axis) and set(own or ()) != set(axis)

    def subscripts(self, first):
        for f in self.p.own_funcs():
            for e in self.p.events(f):
                if e.kind == "load_sub":
                    b, i = e.extra
                elif e.kind in ("store_sub", "aug_sub"):
                    b, i = e.t[0], e.t[1]
                else:
                    continue
                v = self.s.val(b, f, self.ctx(e))
                if (v is U or not v[0] and not v[1]) and self.grid(self.s.named(b)):
                    v = (self.s.named(b),), False, None
                if first:
                    self.R.count("subscripts")
                self.cases(e, b, i, v, first)
                if v is U:
                    continue
                for k, (kind, x) in enumerate(self.s.slots(i)):
                    if kind == "stop" or k >= len(v[0]):
                        break
                    if kind == "slice" and v[0][k] == S("BZ") and x[1] in (("c", None), ("c", 0)) and self.s.dim(x[2], f, self.ctx(e)) == S("GR"):
                        self.R.report("cut-at-regular-grid", self.where(e), "%s of %s" % (pyx.show(x)[:60], pyx.show(b)[:60]),
                                      "%s is stored by %s; its first %s entries are not those of the regular grid" % (pyx.show(b)[:60], self.word(v[0][k]), pyx.show(x[2])[:50]), e.line)
                    if kind == "slice" and v[0][k] and x[1] in (("c", None), ("c", 0)) and self.chosen(x[2], f, e, v[0][k]):
                        self.R.report("first-entries", self.where(e), "%s of %s" % (pyx.show(x)[:60], pyx.show(b)[:60]),
                                      "%s is stored by %s; the first %s of its entries are not those %s names" %
                                      (pyx.show(b)[:60], self.word(v[0][k]), pyx.show(x[2])[:50], pyx.show(x[2][2][0])[:50]), e.line)
                    if kind == "int" and self.grid(v[0][k]):
                        if first:
                            self.R.count("subscripts of tables over grid points")
                        self.require(x, f, v[0][k], "index of %s" % pyx.show(b)[:60], e)
                        w = self.s.val(x, f, self.ctx(e))
                        if w is not U and w[2] is not None and not self.grid(w[2]) and clash(w[2], v[0][k]):
                            self.R.report("not-a-grid-point", self.where(e), "%s in %s" % (pyx.show(x)[:60], pyx.show(b)[:60]),
                                          "%s is not a grid point (%s), and indexes %s by %s" % (pyx.show(x)[:60], "/".join(sorted(w[2])), pyx.show(b)[:60], self.word(v[0][k])), e.line)

    def cases(self, e, b, i, v, first):
        """An array numbered one way or the other depending on a flag, taken with the flag set and with it not set."""
        f = e.fn
        if v is not U and not any(self.grid(a) and len(a) > 1 for a in v[0]) or b[0] != "attr" or b[1] != ("self",) or f.cls is None:
            return
        ctx = self.ctx(e)
        fl = set()
        for st in self.p.attr_stores(f.cls).get(b[2], []):
            fl |= {t for t, _ in self.s.flags(st.conds) | self.s.entry(st.fn)}
            for c, d, exact in self.p.call_sites().get(st.fn.qual, []):
                if c.t[1][0] == "attr" and c.t[1][1] == ("self",):
                    fl |= {t for t, _ in self.s.flags(c.conds) | self.s.entry(c.fn)}
        for t in sorted(fl - {t for t, _ in ctx}, key=repr):
            for val in (True, False):
                c = ctx | {(t, val)}
                w = self.s.val(b, f, c)
                if w is U:
                    continue
                for k, (kind, x) in enumerate(self.s.slots(i)):
                    if kind == "stop" or k >= len(w[0]):
                        break
                    if kind != "int" or not self.grid(w[0][k]):
                        continue
                    ys = [y for y in pyx.alts(x)]
                    for y in ys:
                        z = self.known(y, f, c)[0]
                        if first:
                            self.R.count("subscripts taken under a flag")
                        o = self.s.val(b, f, ctx | {(t, not val)}) if len(ys) > 1 else U
                        if len(ys) > 1 and not all(q[0] == "c" or clash(self.known(q, f, c)[0], w[0][k]) for q in ys) and (o is U or k >= len(o[0]) or not clash(self.known(y, f, ctx | {(t, not val)})[0], o[0][k])):
                            continue          # one of several values: may be the one for the other side
                        if self.grid(z) and clash(z, w[0][k]):
                            self.R.report("wrong-numbering", self.where(e), "%s index of %s with %s%s" % (pyx.show(y)[:60], pyx.show(b)[:60], "" if val else "not ", pyx.show(t)),
                                          "%s is a %s; with %s %s, %s is stored by %s" % (pyx.show(y)[:60], self.word(z), pyx.show(t), val, pyx.show(b)[:60], self.word(w[0][k])), e.line)

    def calls(self, first):
        for f in self.p.own_funcs():
            for e in self.p.events(f):
                if e.kind != "call":
                    continue
                k = kern.kernel_of(e.t[1])
                if k is not None:
                    for fm, a in zip(k.formals, e.t[2]):
                        s = kfact(KEL, k, fm)
                        if s and s in self.sp:
                            if first:
                                self.R.count("kernel arguments that are grid points")
                            self.require(a, f, S(s), "argument %s of %s" % (fm, k.name), e)
                        s = kfact(KAX, k, fm)
                        if s in self.sp:
                            self.takes(a, f, s, "%s of %s" % (fm, k.name), e)
                    continue
                tg, full = self.p.targets(e.t[1], f)
                if not full:
                    continue
                for g, ctor in tg:
                    d, errs, exact = self.p.bind(g, e.t[2], e.t[3], self.p.is_unbound(e.t[1], f, g))
                    for nm, a in d.items():
                        if not isinstance(a, tuple):
                            continue
                        n = self.need.get(("p", g.qual, nm))
                        for s in list(n or ()):
                            self.require(a, f, s, "argument %s of %s" % (nm, g.name), e)
                        m = self.axis.get(("p", g.qual, nm))
                        if m:
                            self.takes(a, f, m, "%s of %s" % (nm, g.name), e)
                        if nm in TAB:
                            self.table(a, nm, f, e, "argument %s of %s" % (nm, g.name))

    def takes(self, a, f, s, why, e):
        """The table a is stored by numbers of space s."""
        for x, g, c in self.drill(a, f, self.ctx(e)):
            v = self.s.val(x, g, c)
            if v is not U and v[0] and v[0][0] is not None:
                self.R.count("tables over grid points handed over")
                if clash(v[0][0], S(s)):
                    self.R.report("wrong-table", self.where(e), "%s as %s" % (pyx.show(x)[:60], why),
                                  "%s is stored by %s, and %s is stored by %s" % (pyx.show(x)[:60], "/".join(sorted(v[0][0])), why, self.word(S(s))), e.line)
            else:
                r = self.root(x, g) if x[0] == "param" else None
                if r is not None and r not in self.axis:
                    self.axis[r] = s
                    self.changed = True

    def table(self, a, nm, f, e, why):
        for x in pyx.alts(a):
            v = self.s.val(x, f, self.ctx(e))
            if v is U or not v[0]:
                continue
            ax, el = TAB[nm]
            if clash(v[0][0], S(ax)) or clash(v[2], S(el)):
                self.R.report("wrong-table", self.where(e), "%s as %s" % (pyx.show(x)[:60], nm),
                              "%s takes a %s and gives a %s; %s is from %s to %s" % (nm, WORD[ax], WORD[el], pyx.show(x)[:60], "/".join(sorted(v[0][0] or "?")), "/".join(sorted(v[2] or "?"))), e.line)

    def stores(self, first):
        """What is stored into attributes whose elements are used as grid points."""
        for q, c in sorted(self.p.classes.items()):
            if not any(f in self.own for f in self.p.class_funcs(c)):
                continue
            for (k, cq, a), n in list(self.need.items()):
                if k != "a" or cq not in [b.qual for b in self.p.mro(c) if hasattr(b, "qual")]:
                    continue
                for s in list(n):
                    if sum(1 for z in n if clash(z, s)):
                        continue
                    for e in self.p.attr_stores(c).get(a, []):
                        if e.fn.cls is not None and e.fn in self.own:
                            self.require(e.t[2], e.fn, s, "kept as %s" % a, e)

    def infer(self):
        R, p = self.R, self.p
        self.own = set(p.own_funcs())
        for n in range(6):
            self.changed = False
            self.subscripts(n == 0)
            self.calls(n == 0)
            self.stores(n == 0)
            if not self.changed:
                break
        self.final = True
        self.subscripts(False)
        self.calls(False)
        self.stores(False)
        for r, d in sorted(self.need.items()):
            R.count("parameters and attributes with a required numbering")
            k = sorted((x for x in d if d[x][2]), key=sorted)
            k = next(((x, y) for x in k for y in k if clash(x, y)), None)
            if k:
                (e1, w1, _), (e2, w2, _) = d[k[0]], d[k[1]]
                R.report("both-numberings", self.where(e2), "%s %s" % (r[1], r[2]),
                         "%s of %s is used as %s (%s, %s:%s) and, unconverted, as %s (%s, %s:%s)" % (r[2], r[1], self.word(k[0]), w1, e1.fn.file, e1.line, self.word(k[1]), w2, e2.fn.file, e2.line), e2.line)

    def run(self):
        R = self.R
        self.infer()
        self.returned()
        self.compared()
        R.require("subscripts of tables over grid points", 60)
        R.require("uses of grid points with known numbering", 60)
        R.require("kernel arguments that are grid points", 20)

    def returned(self):
        for f in self.p.own_funcs():
            if f.name not in RET or f.module.name.startswith("phono3py.cui.kaccum"):
                continue
            for e in self.p.returns(f):
                if e.t is None:
                    continue
                for it, s in RET[f.name].items():
                    for x in pyx.alts(e.t):
                        if it is not None:
                            if x[0] == "tuple":
                                if it >= len(x[1]):
                                    continue
                                x = x[1][it]
                            elif x[0] == "call":
                                x = ("item", it, x)
                            else:
                                continue
                        for y in pyx.alts(x):
                            v = self.s.val(y, f, self.ctx(e))
                            if v is U or v[2] is None:
                                continue
                            self.R.count("returned grid points with known numbering")
                            if clash(v[2], S(s)) and self.grid(v[2]):
                                self.R.report("wrong-numbering-returned", self.where(e), pyx.show(y)[:80],
                                              "%s returns %s, a %s; documented is a %s" % (f.short, pyx.show(y)[:80], self.word(v[2]), WORD[s]), e.line)

    def compared(self):
        for f in self.p.own_funcs():
            seen = set()
            for e in self.p.events(f):
                ts = [c for c, b in e.conds]
                if e.kind in ("if", "assert", "store_name", "return", "call"):
                    ts += [e.t] if isinstance(e.t, tuple) else []
                for t in ts:
                    for x in pyx.subterms(t):
                        if x in seen or len(x) != 4 or x[0] != "op" or x[1] not in ("==", "!="):
                            continue
                        seen.add(x)
                        a, b = self.s.val(x[2], f, self.ctx(e)), self.s.val(x[3], f, self.ctx(e))
                        if a is U or b is U or not self.grid(a[2]) or not self.grid(b[2]):
                            continue
                        self.R.count("comparisons of grid points")
                        if clash(a[2], b[2]):
                            self.R.report("compares-numberings", self.where(e), pyx.show(x)[:100],
                                          "%s is a %s and %s a %s" % (pyx.show(x[2])[:50], self.word(a[2]), pyx.show(x[3])[:50], self.word(b[2])), e.line)


def run(R):
    R.explanation = ("Numberings are inferred over the whole package (locals, attributes, returned values, call sites, kernel outputs) and requirements carried back "
                     "through parameters and attributes; a report needs both numberings to be known.")
    R.assumptions = ["Values given by the user or read from files have the numbering that their uses require.",
                     "Kernel arguments named in the tables KEL and KAX of lib/space.py have the numbering stated there."]
    P07(R).run()
